From f7b3128dbbf199b06299827792386a558e65732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 01/93] fix: char[] writers quote curly braces and keep \a and
 \b

---
 pgsql/chararr.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/pgsql/chararr.go b/pgsql/chararr.go
index c0992be..de6f7d4 100644
--- a/pgsql/chararr.go
+++ b/pgsql/chararr.go
@@ -64,10 +64,8 @@ func (v charArrayFromString) Value() (driver.Value, error) {
 			out = append(out, '"', byte(r), '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', byte(r), '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
+		case ',', '{', '}':
+			out = append(out, '"', byte(r), '"', ',')
 		default:
 			if size := utf8.RuneLen(r); size > 1 {
 				p := make([]byte, size+1, size+1)
@@ -122,10 +120,8 @@ func (v charArrayFromByteSlice) Value() (driver.Value, error) {
 			out = append(out, '"', b, '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', b, '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
+		case ',', '{', '}':
+			out = append(out, '"', b, '"', ',')
 		default:
 			out = append(out, b, ',')
 		}
@@ -173,10 +169,8 @@ func (v charArrayFromRuneSlice) Value() (driver.Value, error) {
 			out = append(out, '"', byte(r), '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', byte(r), '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
+		case ',', '{', '}':
+			out = append(out, '"', byte(r), '"', ',')
 		default:
 			if size := utf8.RuneLen(r); size > 1 {
 				p := make([]byte, size+1, size+1)
@@ -233,10 +227,8 @@ func (v charArrayFromStringSlice) Value() (driver.Value, error) {
 			out = append(out, '"', byte(r), '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', byte(r), '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
+		case ',', '{', '}':
+			out = append(out, '"', byte(r), '"', ',')
 		default:
 			if size > 1 {
 				p := make([]byte, size+1, size+1)
-- 
2.43.0


From f2be43d6b4bdd9ba35493da9af04419619ed450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 02/93] fix: bytea[] readers and writers keep NULL elements

---
 pgsql/byteaarr.go | 11 +++++++++++
 pgsql/chararr.go  |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/pgsql/byteaarr.go b/pgsql/byteaarr.go
index 6773d7b..2d57d3a 100644
--- a/pgsql/byteaarr.go
+++ b/pgsql/byteaarr.go
@@ -41,6 +41,11 @@ func (v byteaArrayFromByteSliceSlice) Value() (driver.Value, error) {
 	out[0] = '{'
 
 	for i := 0; i < len(v.val); i++ {
+		if v.val[i] == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
+
 		out = append(out, '"', '\\', '\\', 'x')
 
 		dst := make([]byte, hex.EncodedLen(len(v.val[i])))
@@ -71,6 +76,9 @@ func (v byteaArrayToByteSliceSlice) Scan(src interface{}) error {
 	out := make([][]byte, len(elems))
 	for i := 0; i < len(elems); i++ {
 		src := elems[i]
+		if string(src) == `NULL` {
+			continue
+		}
 
 		// drop the initial "\\x and the last "
 		src = src[4 : len(src)-1]
@@ -133,6 +141,9 @@ func (v byteaArrayToStringSlice) Scan(src interface{}) error {
 	out := make([]string, len(elems))
 	for i := 0; i < len(elems); i++ {
 		src := elems[i]
+		if string(src) == `NULL` {
+			continue
+		}
 
 		// drop the initial "\\x and the last "
 		src = src[4 : len(src)-1]
diff --git a/pgsql/chararr.go b/pgsql/chararr.go
index de6f7d4..080fd82 100644
--- a/pgsql/chararr.go
+++ b/pgsql/chararr.go
@@ -221,6 +221,11 @@ func (v charArrayFromStringSlice) Value() (driver.Value, error) {
 	out[0] = '{'
 
 	for _, v := range v.val {
+		if len(v) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		r, size := utf8.DecodeRuneInString(v)
 		switch r {
 		case ' ', '\t', '\r', '\n', '\f', '\v':
-- 
2.43.0


From 88ae388f9d8b2f4314bee9a49b220531ca8818c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 03/93] fix: hstore readers keep empty strings and reset the
 destination on NULL

---
 pgsql/convert_util.go | 4 ++++
 pgsql/hstore.go       | 3 +++
 pgsql/hstorearr.go    | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 2a8fd1a..7cb1394 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -95,6 +95,8 @@ func pgparsehstore(a []byte) (out [][2][]byte) {
 
 	for i := 0; i < len(a); i++ {
 		if a[i] == '"' { // start of key or value?
+			pair[idx] = []byte{} // not NULL
+
 			for j := i + 1; j < len(a); j++ {
 				if a[j] == '\\' {
 					j++ // skip escaped char
@@ -147,6 +149,8 @@ func pgparsehstorearr(a []byte) (out [][][2][]byte) {
 			for j := i + 1; j < len(a); j++ {
 
 				if a[j] == '\\' && a[j+1] == '"' { // start of key or value?
+					pair[idx] = []byte{} // not NULL
+
 					for k := j + 2; k < len(a); k++ {
 						if a[k] == '\\' {
 							if a[k+1] == '\\' { // escape??
diff --git a/pgsql/hstore.go b/pgsql/hstore.go
index 4797905..225246d 100644
--- a/pgsql/hstore.go
+++ b/pgsql/hstore.go
@@ -68,6 +68,7 @@ func (v hstoreToStringMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -122,6 +123,7 @@ func (v hstoreToStringPtrMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -177,6 +179,7 @@ func (v hstoreToNullStringMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/hstorearr.go b/pgsql/hstorearr.go
index 3cd6860..2a1a943 100644
--- a/pgsql/hstorearr.go
+++ b/pgsql/hstorearr.go
@@ -98,6 +98,7 @@ func (v hstoreArrayToStringMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -201,6 +202,7 @@ func (v hstoreArrayToStringPtrMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -305,6 +307,7 @@ func (v hstoreArrayToNullStringMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
-- 
2.43.0


From 31de96efdf99f6d2f18de4b0bcda84bf633fc4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 04/93] fix: int2vector[] and tsvector[] empty, unquoted and
 escaped elements

---
 pgsql/convert_util.go  |  43 +++---------
 pgsql/int2vectorarr.go | 156 +++++++++++++++++++++++++++++++++++++++++
 pgsql/tsvectorarr.go   | 116 ++++++------------------------
 3 files changed, 186 insertions(+), 129 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 7cb1394..f23360a 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -277,7 +277,7 @@ mainloop:
 				}
 			}
 		case 'N': // NULL?
-			if len(a) > i+3 && string(a[i:i+4]) == `NULL` {
+			if len(a) > i+3 && string(a[i:i+4]) == `NULL` && (len(a) == i+4 || a[i+4] == ',') {
 				out = append(out, []byte(nil))
 				i = i + 3
 				continue mainloop
@@ -648,41 +648,14 @@ func pgParseVectorArray(a []byte) (out [][][]byte) {
 	if len(a) == 0 {
 		return out // nothing to do if empty
 	}
-	a = a[1 : len(a)-1] // drop array delimiters
-
-	for i := 0; i < len(a); i++ {
-		switch a[i] {
-		case '"': // quoted element
-			vector := [][]byte{}
-
-			k := i + 1 // vector start
-			for j := k; j < len(a); j++ {
-				if a[j] == '"' { // vector end
-					vector = append(vector, a[k:j])
-					i = j + 1
-					break
-				}
-				if a[j] == ' ' {
-					vector = append(vector, a[k:j])
-					k = j + 1
-				}
-			}
 
-			out = append(out, vector)
-		case 'N': // NULL element?
-			if len(a) > i+3 && string(a[i:i+4]) == `NULL` {
-				out = append(out, [][]byte(nil))
-				i = i + 3
-			}
-		default: // unquoted element
-			k, j := i, i // elem start
-			for ; j < len(a); j++ {
-				if a[j] == ',' { // elem end
-					i = j
-					break
-				}
-			}
-			out = append(out, [][]byte{a[k:j]})
+	for _, elem := range pgParseStringArray(a) {
+		if elem == nil { // NULL element?
+			out = append(out, [][]byte(nil))
+		} else if len(elem) == 0 { // empty vector?
+			out = append(out, [][]byte{})
+		} else {
+			out = append(out, pgParseVector(elem))
 		}
 	}
 
diff --git a/pgsql/int2vectorarr.go b/pgsql/int2vectorarr.go
index d4f980d..3c5ea98 100644
--- a/pgsql/int2vectorarr.go
+++ b/pgsql/int2vectorarr.go
@@ -140,6 +140,15 @@ func (v int2VectorArrayFromIntSliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ints := range v.val {
+		if len(ints) == 0 {
+			if ints == nil {
+				out = append(out, 'N', 'U', 'L', 'L', ',')
+			} else {
+				out = append(out, '"', '"', ',')
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i := range ints {
 			out = strconv.AppendInt(out, int64(i), 10)
@@ -169,6 +178,10 @@ func (v int2VectorArrayToIntSliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	intss := make([][]int, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil { // NULL?
+			continue
+		}
+
 		ints := make([]int, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -198,6 +211,15 @@ func (v int2VectorArrayFromInt8SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int8s := range v.val {
+		if len(int8s) == 0 {
+			if int8s == nil {
+				out = append(out, 'N', 'U', 'L', 'L', ',')
+			} else {
+				out = append(out, '"', '"', ',')
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i8 := range int8s {
 			out = strconv.AppendInt(out, int64(i8), 10)
@@ -227,6 +249,10 @@ func (v int2VectorArrayToInt8SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int8ss := make([][]int8, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil { // NULL?
+			continue
+		}
+
 		int8s := make([]int8, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 8)
@@ -256,6 +282,15 @@ func (v int2VectorArrayFromInt16SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int16s := range v.val {
+		if len(int16s) == 0 {
+			if int16s == nil {
+				out = append(out, 'N', 'U', 'L', 'L', ',')
+			} else {
+				out = append(out, '"', '"', ',')
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i16 := range int16s {
 			out = strconv.AppendInt(out, int64(i16), 10)
@@ -285,6 +320,10 @@ func (v int2VectorArrayToInt16SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int16ss := make([][]int16, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil { // NULL?
+			continue
+		}
+
 		int16s := make([]int16, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -314,6 +353,15 @@ func (v int2VectorArrayFromInt32SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int32s := range v.val {
+		if len(int32s) == 0 {
+			if int32s == nil {
+				out = append(out, 'N', 'U', 'L', 'L', ',')
+			} else {
+				out = append(out, '"', '"', ',')
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i32 := range int32s {
 			out = strconv.AppendInt(out, int64(i32), 10)
@@ -343,6 +391,10 @@ func (v int2VectorArrayToInt32SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int32ss := make([][]int32, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil { // NULL?
+			continue
+		}
+
 		int32s := make([]int32, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -372,6 +424,15 @@ func (v int2VectorArrayFromInt64SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int64s := range v.val {
+		if len(int64s) == 0 {
+			if int64s == nil {
+				out = append(out, 'N', 'U', 'L', 'L', ',')
+			} else {
+				out = append(out, '"', '"', ',')
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i64 := range int64s {
 			out = strconv.AppendInt(out, i64, 10)
@@ -401,6 +462,10 @@ func (v int2VectorArrayToInt64SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int64ss := make([][]int64, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil { // NULL?
+			continue
+		}
+
 		int64s := make([]int64, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -430,6 +495,15 @@ func (v int2VectorArrayFromUintSliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uints := range v.val {
+		if len(uints) == 0 {
+			if uints == nil {
+				out = append(out, 'N', 'U', 'L', 'L', ',')
+			} else {
+				out = append(out, '"', '"', ',')
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u := range uints {
 			out = strconv.AppendUint(out, uint64(u), 10)
@@ -459,6 +533,10 @@ func (v int2VectorArrayToUintSliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uintss := make([][]uint, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil { // NULL?
+			continue
+		}
+
 		uints := make([]uint, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -488,6 +566,15 @@ func (v int2VectorArrayFromUint8SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint8s := range v.val {
+		if len(uint8s) == 0 {
+			if uint8s == nil {
+				out = append(out, 'N', 'U', 'L', 'L', ',')
+			} else {
+				out = append(out, '"', '"', ',')
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u8 := range uint8s {
 			out = strconv.AppendUint(out, uint64(u8), 10)
@@ -517,6 +604,10 @@ func (v int2VectorArrayToUint8SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint8ss := make([][]uint8, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil { // NULL?
+			continue
+		}
+
 		uint8s := make([]uint8, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 8)
@@ -546,6 +637,15 @@ func (v int2VectorArrayFromUint16SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint16s := range v.val {
+		if len(uint16s) == 0 {
+			if uint16s == nil {
+				out = append(out, 'N', 'U', 'L', 'L', ',')
+			} else {
+				out = append(out, '"', '"', ',')
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u16 := range uint16s {
 			out = strconv.AppendUint(out, uint64(u16), 10)
@@ -575,6 +675,10 @@ func (v int2VectorArrayToUint16SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint16ss := make([][]uint16, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil { // NULL?
+			continue
+		}
+
 		uint16s := make([]uint16, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -604,6 +708,15 @@ func (v int2VectorArrayFromUint32SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint32s := range v.val {
+		if len(uint32s) == 0 {
+			if uint32s == nil {
+				out = append(out, 'N', 'U', 'L', 'L', ',')
+			} else {
+				out = append(out, '"', '"', ',')
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u32 := range uint32s {
 			out = strconv.AppendUint(out, uint64(u32), 10)
@@ -633,6 +746,10 @@ func (v int2VectorArrayToUint32SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint32ss := make([][]uint32, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil { // NULL?
+			continue
+		}
+
 		uint32s := make([]uint32, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -662,6 +779,15 @@ func (v int2VectorArrayFromUint64SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint64s := range v.val {
+		if len(uint64s) == 0 {
+			if uint64s == nil {
+				out = append(out, 'N', 'U', 'L', 'L', ',')
+			} else {
+				out = append(out, '"', '"', ',')
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u64 := range uint64s {
 			out = strconv.AppendUint(out, u64, 10)
@@ -691,6 +817,10 @@ func (v int2VectorArrayToUint64SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint64ss := make([][]uint64, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil { // NULL?
+			continue
+		}
+
 		uint64s := make([]uint64, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -720,6 +850,15 @@ func (v int2VectorArrayFromFloat32SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, float32s := range v.val {
+		if len(float32s) == 0 {
+			if float32s == nil {
+				out = append(out, 'N', 'U', 'L', 'L', ',')
+			} else {
+				out = append(out, '"', '"', ',')
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, f32 := range float32s {
 			out = strconv.AppendInt(out, int64(f32), 10)
@@ -749,6 +888,10 @@ func (v int2VectorArrayToFloat32SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	float32ss := make([][]float32, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil { // NULL?
+			continue
+		}
+
 		float32s := make([]float32, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -778,6 +921,15 @@ func (v int2VectorArrayFromFloat64SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, float64s := range v.val {
+		if len(float64s) == 0 {
+			if float64s == nil {
+				out = append(out, 'N', 'U', 'L', 'L', ',')
+			} else {
+				out = append(out, '"', '"', ',')
+			}
+			continue
+		}
+
 		out = append(out, '"')
 		for _, f64 := range float64s {
 			out = strconv.AppendInt(out, int64(f64), 10)
@@ -807,6 +959,10 @@ func (v int2VectorArrayToFloat64SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	float64ss := make([][]float64, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil { // NULL?
+			continue
+		}
+
 		float64s := make([]float64, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
diff --git a/pgsql/tsvectorarr.go b/pgsql/tsvectorarr.go
index fe117a0..2d9439f 100644
--- a/pgsql/tsvectorarr.go
+++ b/pgsql/tsvectorarr.go
@@ -36,63 +36,27 @@ func (v tsVectorArrayFromStringSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (2 + (len(v.val) - 1)) // curly braces + number of commas
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			size += 4 // len(`NULL`)
-		} else if len(v.val[i]) == 0 {
-			size += 2 // len(`""`)
-		} else {
-			size += (2 + (len(v.val[i]) - 1)) // double quotes + number of spaces
-			for j := 0; j < len(v.val[i]); j++ {
-				size += len(v.val[i][j])
-			}
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
+	out := []byte{'{'}
 
-	var pos int
 	for i := 0; i < len(v.val); i++ {
 		if v.val[i] == nil {
-			out[pos+1] = 'N'
-			out[pos+2] = 'U'
-			out[pos+3] = 'L'
-			out[pos+4] = 'L'
-			out[pos+5] = ','
-			pos += 5
-			continue
-		}
-
-		if len(v.val[i]) == 0 {
-			out[pos+1] = '"'
-			out[pos+2] = '"'
-			out[pos+3] = ','
-			pos += 3
+			out = append(out, 'N', 'U', 'L', 'L', ',')
 			continue
 		}
 
-		pos += 1
-		out[pos] = '"'
-
-		for j, num := 0, len(v.val[i]); j < num; j++ {
-			pos += 1
-
-			length := len(v.val[i][j])
-			copy(out[pos:pos+length], v.val[i][j])
-
-			pos += length
-			out[pos] = ' '
+		var elem []byte
+		for j := 0; j < len(v.val[i]); j++ {
+			if j > 0 {
+				elem = append(elem, ' ')
+			}
+			elem = append(elem, v.val[i][j]...)
 		}
 
-		out[pos] = '"'
-		pos += 1
-
-		out[pos] = ','
+		out = pgAppendQuote1(out, elem)
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -142,63 +106,27 @@ func (v tsVectorArrayFromByteSliceSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (2 + (len(v.val) - 1)) // curly braces + number of commas
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			size += 4 // len(`NULL`)
-		} else if len(v.val[i]) == 0 {
-			size += 2 // len(`""`)
-		} else {
-			size += (2 + (len(v.val[i]) - 1)) // double quotes + number of spaces
-			for j := 0; j < len(v.val[i]); j++ {
-				size += len(v.val[i][j])
-			}
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
+	out := []byte{'{'}
 
-	var pos int
 	for i := 0; i < len(v.val); i++ {
 		if v.val[i] == nil {
-			out[pos+1] = 'N'
-			out[pos+2] = 'U'
-			out[pos+3] = 'L'
-			out[pos+4] = 'L'
-			out[pos+5] = ','
-			pos += 5
-			continue
-		}
-
-		if len(v.val[i]) == 0 {
-			out[pos+1] = '"'
-			out[pos+2] = '"'
-			out[pos+3] = ','
-			pos += 3
+			out = append(out, 'N', 'U', 'L', 'L', ',')
 			continue
 		}
 
-		pos += 1
-		out[pos] = '"'
-
-		for j, num := 0, len(v.val[i]); j < num; j++ {
-			pos += 1
-
-			length := len(v.val[i][j])
-			copy(out[pos:pos+length], v.val[i][j])
-
-			pos += length
-			out[pos] = ' '
+		var elem []byte
+		for j := 0; j < len(v.val[i]); j++ {
+			if j > 0 {
+				elem = append(elem, ' ')
+			}
+			elem = append(elem, v.val[i][j]...)
 		}
 
-		out[pos] = '"'
-		pos += 1
-
-		out[pos] = ','
+		out = pgAppendQuote1(out, elem)
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
-- 
2.43.0


From d83349f24c93915e20ac73d4a749b3be533360ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 05/93] fix: int8[] reader for []uint accepts the whole int8
 range

---
 pgsql/int8arr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgsql/int8arr.go b/pgsql/int8arr.go
index 5999c24..29e119d 100644
--- a/pgsql/int8arr.go
+++ b/pgsql/int8arr.go
@@ -409,7 +409,7 @@ func (v int8ArrayToUintSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uints := make([]uint, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 32)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d6c80a5e1031303b14213551c913b3ceee7ed96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 06/93] fix: range array readers reset the destination on NULL

---
 pgsql/daterangearr.go |  2 +-
 pgsql/int4rangearr.go | 24 ++++++++++++------------
 pgsql/int8rangearr.go | 24 ++++++++++++------------
 pgsql/numrangearr.go  | 24 ++++++++++++------------
 4 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/pgsql/daterangearr.go b/pgsql/daterangearr.go
index fe6d628..b8dac6f 100644
--- a/pgsql/daterangearr.go
+++ b/pgsql/daterangearr.go
@@ -59,7 +59,7 @@ func (v dateRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int4rangearr.go b/pgsql/int4rangearr.go
index 8732f6a..41d8679 100644
--- a/pgsql/int4rangearr.go
+++ b/pgsql/int4rangearr.go
@@ -160,7 +160,7 @@ func (v int4RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int4RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int4RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int4RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int4RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int4RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int4RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int4RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int4RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int4RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int4RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int4RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int8rangearr.go b/pgsql/int8rangearr.go
index 416f928..538e7e1 100644
--- a/pgsql/int8rangearr.go
+++ b/pgsql/int8rangearr.go
@@ -160,7 +160,7 @@ func (v int8RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int8RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int8RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int8RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int8RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int8RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int8RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int8RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int8RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int8RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int8RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int8RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index 81557f0..9f43001 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -160,7 +160,7 @@ func (v numRangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v numRangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v numRangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v numRangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v numRangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v numRangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v numRangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v numRangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v numRangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v numRangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
-- 
2.43.0


From 185f169510f77c5833b4ff7f383869efbddf92e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 07/93] fix: tsquery[] writers escape their elements, the
 reader keeps NULL elements

---
 pgsql/tsqueryarr.go | 67 ++++++++-------------------------------------
 1 file changed, 11 insertions(+), 56 deletions(-)

diff --git a/pgsql/tsqueryarr.go b/pgsql/tsqueryarr.go
index 2b8d3e7..de72723 100644
--- a/pgsql/tsqueryarr.go
+++ b/pgsql/tsqueryarr.go
@@ -36,32 +36,14 @@ func (v tsQueryArrayFromStringSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (len(v.val) * 2) + // number of surrounding double quotes
-		(len(v.val) - 1) + // number of commas between elements
-		2 // curly braces
-	for i := 0; i < len(v.val); i++ {
-		size += len(v.val[i]) // length of the element
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
+	out := []byte{'{'}
 
-	var pos int
 	for i := 0; i < len(v.val); i++ {
-		pos += 1
-		out[pos] = '"'
-		pos += 1
-
-		length := len(v.val[i])
-		copy(out[pos:pos+length], v.val[i])
-		pos += length
-
-		out[pos] = '"'
-		pos += 1
-		out[pos] = ','
+		out = pgAppendQuote1(out, []byte(v.val[i]))
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -99,46 +81,19 @@ func (v tsQueryArrayFromByteSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (len(v.val) * 2) + // number of surrounding double quotes
-		(len(v.val) - 1) + // number of commas between elements
-		2 // curly braces
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			size += 2 // len(`NULL`) - 2 double quotes
-		} else {
-			size += len(v.val[i]) // length of the element
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
+	out := []byte{'{'}
 
-	var pos int
 	for i := 0; i < len(v.val); i++ {
-		pos += 1
-
 		if v.val[i] == nil {
-			out[pos+0] = 'N'
-			out[pos+1] = 'U'
-			out[pos+2] = 'L'
-			out[pos+3] = 'L'
-			pos += 4
-		} else {
-			out[pos] = '"'
-			pos += 1
-
-			length := len(v.val[i])
-			copy(out[pos:pos+length], v.val[i])
-			pos += length
-
-			out[pos] = '"'
-			pos += 1
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
 		}
 
-		out[pos] = ','
+		out = pgAppendQuote1(out, v.val[i])
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -158,7 +113,7 @@ func (v tsQueryArrayToByteSliceSlice) Scan(src interface{}) error {
 	elems := pgParseStringArray(data)
 	bytess := make([][]byte, len(elems))
 	for i := 0; i < len(elems); i++ {
-		if len(elems[i]) == 4 && elems[i][0] == 'N' { // NULL?
+		if elems[i] == nil { // NULL?
 			continue
 		}
 
-- 
2.43.0


From 992792661715c59b097c47d189cb038c309eba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 08/93] fix: money conversions are exact and accept negative
 and large amounts

---
 pgsql/convert_util.go | 27 +++++++++++++++++++++++++++
 pgsql/money.go        | 10 +++-------
 pgsql/moneyarr.go     | 11 ++++-------
 3 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index f23360a..0139897 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -3,6 +3,7 @@ package pgsql
 import (
 	"bytes"
 	"encoding/hex"
+	"strconv"
 	"time"
 )
 
@@ -701,6 +702,32 @@ func pgFormatUUID(arr [16]byte) (out []byte) {
 	return out
 }
 
+// pgAppendMoney appends the given number of cents as a money literal.
+func pgAppendMoney(buf []byte, cents int64) []byte {
+	u := uint64(cents)
+	if cents < 0 {
+		buf = append(buf, '-')
+		u = -u
+	}
+	buf = append(buf, '$')
+	buf = strconv.AppendUint(buf, u/100, 10)
+	return append(buf, '.', '0'+byte(u%100/10), '0'+byte(u%10))
+}
+
+// Expected format: '[-]$N[,NNN ...].NN', returns the number of cents.
+func pgParseMoney(a []byte) (int64, error) {
+	digits := make([]byte, 0, len(a))
+	for i := 0; i < len(a); i++ {
+		switch a[i] {
+		case '$', ',', '.':
+			// drop the currency symbol and the separators
+		default:
+			digits = append(digits, a[i])
+		}
+	}
+	return strconv.ParseInt(string(digits), 10, 64)
+}
+
 // pgAppendQuote1
 func pgAppendQuote1(buf, elem []byte) []byte {
 	buf = append(buf, '"')
diff --git a/pgsql/money.go b/pgsql/money.go
index ca05195..96b14b7 100644
--- a/pgsql/money.go
+++ b/pgsql/money.go
@@ -3,7 +3,6 @@ package pgsql
 import (
 	"database/sql"
 	"database/sql/driver"
-	"strconv"
 )
 
 // MoneyFromInt64 returns a driver.Valuer that produces a PostgreSQL money from the given Go int64.
@@ -21,9 +20,7 @@ type moneyFromInt64 struct {
 }
 
 func (v moneyFromInt64) Value() (driver.Value, error) {
-	out := []byte{'$'}
-	out = strconv.AppendFloat(out, float64(v.val)/100.0, 'f', 2, 64)
-	return out, nil
+	return pgAppendMoney(nil, v.val), nil
 }
 
 type moneyToInt64 struct {
@@ -38,12 +35,11 @@ func (v moneyToInt64) Scan(src interface{}) error {
 		return nil
 	}
 
-	data = data[1:] // drop $
-	f64, err := strconv.ParseFloat(string(data), 64)
+	cents, err := pgParseMoney(data)
 	if err != nil {
 		return err
 	}
 
-	*v.val = int64(f64 * 100.0)
+	*v.val = cents
 	return nil
 }
diff --git a/pgsql/moneyarr.go b/pgsql/moneyarr.go
index ce857b2..3e197f0 100644
--- a/pgsql/moneyarr.go
+++ b/pgsql/moneyarr.go
@@ -3,7 +3,6 @@ package pgsql
 import (
 	"database/sql"
 	"database/sql/driver"
-	"strconv"
 )
 
 // MoneyArrayFromInt64Slice returns a driver.Valuer that produces a PostgreSQL money[] from the given Go []int64.
@@ -35,8 +34,7 @@ func (v moneyArrayFromInt64Slice) Value() (driver.Value, error) {
 	out[0] = '{'
 
 	for i := 0; i < len(v.val); i++ {
-		out = append(out, '$')
-		out = strconv.AppendFloat(out, float64(v.val[i])/100.0, 'f', 2, 64)
+		out = pgAppendMoney(out, v.val[i])
 		out = append(out, ',')
 	}
 
@@ -57,16 +55,15 @@ func (v moneyArrayToInt64Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseCommaArray(data)
+	elems := pgParseStringArray(data) // thousands separators are commas
 	int64s := make([]int64, len(elems))
 	for i := 0; i < len(elems); i++ {
-		elems[i] = elems[i][1:] // drop $
-		f64, err := strconv.ParseFloat(string(elems[i]), 64)
+		cents, err := pgParseMoney(elems[i])
 		if err != nil {
 			return err
 		}
 
-		int64s[i] = int64(f64 * 100.0)
+		int64s[i] = cents
 	}
 
 	*v.val = int64s
-- 
2.43.0


From c807ca3bcddd77cba78aaf7903ca19177b2f4408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 09/93] fix: numrange conversions of floats keep the fraction

---
 pgsql/numrange.go    | 20 ++++++++++----------
 pgsql/numrangearr.go | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/pgsql/numrange.go b/pgsql/numrange.go
index 407a48b..fa9288c 100644
--- a/pgsql/numrange.go
+++ b/pgsql/numrange.go
@@ -562,9 +562,9 @@ type numRangeFromFloat32Array2 struct {
 
 func (v numRangeFromFloat32Array2) Value() (driver.Value, error) {
 	out := []byte{'['}
-	out = strconv.AppendInt(out, int64(v.val[0]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[0]), 'f', -1, 32)
 	out = append(out, ',')
-	out = strconv.AppendInt(out, int64(v.val[1]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[1]), 'f', -1, 32)
 	out = append(out, ')')
 	return out, nil
 }
@@ -581,15 +581,15 @@ func (v numRangeToFloat32Array2) Scan(src interface{}) error {
 		return nil
 	}
 
-	var lo, hi int64
+	var lo, hi float64
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		if lo, err = strconv.ParseInt(string(elems[0]), 10, 64); err != nil {
+		if lo, err = strconv.ParseFloat(string(elems[0]), 32); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		if hi, err = strconv.ParseInt(string(elems[1]), 10, 64); err != nil {
+		if hi, err = strconv.ParseFloat(string(elems[1]), 32); err != nil {
 			return err
 		}
 	}
@@ -605,9 +605,9 @@ type numRangeFromFloat64Array2 struct {
 
 func (v numRangeFromFloat64Array2) Value() (driver.Value, error) {
 	out := []byte{'['}
-	out = strconv.AppendInt(out, int64(v.val[0]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[0]), 'f', -1, 64)
 	out = append(out, ',')
-	out = strconv.AppendInt(out, int64(v.val[1]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[1]), 'f', -1, 64)
 	out = append(out, ')')
 	return out, nil
 }
@@ -624,15 +624,15 @@ func (v numRangeToFloat64Array2) Scan(src interface{}) error {
 		return nil
 	}
 
-	var lo, hi int64
+	var lo, hi float64
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		if lo, err = strconv.ParseInt(string(elems[0]), 10, 64); err != nil {
+		if lo, err = strconv.ParseFloat(string(elems[0]), 64); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		if hi, err = strconv.ParseInt(string(elems[1]), 10, 64); err != nil {
+		if hi, err = strconv.ParseFloat(string(elems[1]), 64); err != nil {
 			return err
 		}
 	}
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index 9f43001..c0c8b8b 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -771,9 +771,9 @@ func (v numRangeArrayFromFloat32Array2Slice) Value() (driver.Value, error) {
 
 	for _, a := range v.val {
 		out = append(out, '"', '[')
-		out = strconv.AppendInt(out, int64(a[0]), 10)
+		out = strconv.AppendFloat(out, float64(a[0]), 'f', -1, 32)
 		out = append(out, ',')
-		out = strconv.AppendInt(out, int64(a[1]), 10)
+		out = strconv.AppendFloat(out, float64(a[1]), 'f', -1, 32)
 		out = append(out, ')', '"', ',')
 	}
 
@@ -798,15 +798,15 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	ranges := make([][2]float32, len(elems))
 
 	for i, elem := range elems {
-		var lo, hi int64
+		var lo, hi float64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 32); err != nil {
+			if lo, err = strconv.ParseFloat(string(arr[0]), 32); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 32); err != nil {
+			if hi, err = strconv.ParseFloat(string(arr[1]), 32); err != nil {
 				return err
 			}
 		}
@@ -834,9 +834,9 @@ func (v numRangeArrayFromFloat64Array2Slice) Value() (driver.Value, error) {
 
 	for _, a := range v.val {
 		out = append(out, '"', '[')
-		out = strconv.AppendInt(out, int64(a[0]), 10)
+		out = strconv.AppendFloat(out, float64(a[0]), 'f', -1, 64)
 		out = append(out, ',')
-		out = strconv.AppendInt(out, int64(a[1]), 10)
+		out = strconv.AppendFloat(out, float64(a[1]), 'f', -1, 64)
 		out = append(out, ')', '"', ',')
 	}
 
@@ -861,15 +861,15 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	ranges := make([][2]float64, len(elems))
 
 	for i, elem := range elems {
-		var lo, hi int64
+		var lo, hi float64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 64); err != nil {
+			if lo, err = strconv.ParseFloat(string(arr[0]), 64); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 64); err != nil {
+			if hi, err = strconv.ParseFloat(string(arr[1]), 64); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 651f867955c90d918c03f532a6aeb8b5b8bba4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 10/93] fix: time conversions keep microseconds and whole zone
 offsets

---
 pgsql/convert_util.go   | 19 +++++++++++++++----
 pgsql/timestamptzarr.go |  2 +-
 pgsql/timetzarr.go      |  2 +-
 pgsql/tstzrange.go      |  4 ++--
 pgsql/tstzrangearr.go   |  4 ++--
 5 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 0139897..1771d61 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -9,10 +9,10 @@ import (
 
 const (
 	dateLayout        = "2006-01-02"
-	timeLayout        = "15:04:05.999"
-	timetzLayout      = "15:04:05.999-07:00"
-	timestampLayout   = "2006-01-02 15:04:05.999"
-	timestamptzLayout = "2006-01-02 15:04:05.999-07"
+	timeLayout        = "15:04:05.999999"
+	timetzLayout      = "15:04:05.999999-07:00"
+	timestampLayout   = "2006-01-02 15:04:05.999999"
+	timestamptzLayout = "2006-01-02 15:04:05.999999-07:00:00"
 )
 
 var noZone = time.FixedZone("", 0)
@@ -203,6 +203,17 @@ func pgparsehstorearr(a []byte) (out [][][2][]byte) {
 	return out
 }
 
+// pgZoneLayout returns the layout of the zone offset ("+hh", "+hh:mm", or "+hh:mm:ss") at the end of a.
+func pgZoneLayout(a []byte) string {
+	switch len(a) - bytes.LastIndexAny(a, "+-") {
+	case 6:
+		return "-07:00"
+	case 9:
+		return "-07:00:00"
+	}
+	return "-07"
+}
+
 func pgparsedate(a []byte) (time.Time, error) {
 	return time.ParseInLocation(dateLayout, string(a), time.UTC)
 }
diff --git a/pgsql/timestamptzarr.go b/pgsql/timestamptzarr.go
index 7bd4dc3..7b786de 100644
--- a/pgsql/timestamptzarr.go
+++ b/pgsql/timestamptzarr.go
@@ -66,7 +66,7 @@ func (v timestamptzArrayToTimeSlice) Scan(src interface{}) error {
 		}
 
 		ts = ts[1 : len(ts)-1] // drop surrounding double quotes
-		t, err := time.Parse(timestamptzLayout, string(ts))
+		t, err := time.Parse(timestampLayout+pgZoneLayout(ts), string(ts))
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/timetzarr.go b/pgsql/timetzarr.go
index 101ac5e..9fd6c03 100644
--- a/pgsql/timetzarr.go
+++ b/pgsql/timetzarr.go
@@ -57,7 +57,7 @@ func (v timetzArrayToTimeSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	times := make([]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
-		t, err := time.Parse(timetzLayout, string(elems[i]))
+		t, err := time.Parse(timeLayout+pgZoneLayout(elems[i]), string(elems[i]))
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/tstzrange.go b/pgsql/tstzrange.go
index 6e6ac60..0de857c 100644
--- a/pgsql/tstzrange.go
+++ b/pgsql/tstzrange.go
@@ -51,14 +51,14 @@ func (v tstzRangeToTimeArray2) Scan(src interface{}) error {
 	if len(elems[0]) > 0 {
 		s := elems[0]
 		s = s[1 : len(s)-1] // remove surrounding double quotes
-		if lo, err = time.Parse(timestamptzLayout, string(s)); err != nil {
+		if lo, err = time.Parse(timestampLayout+pgZoneLayout(s), string(s)); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
 		s := elems[1]
 		s = s[1 : len(s)-1] // remove surrounding double quotes
-		if hi, err = time.Parse(timestamptzLayout, string(s)); err != nil {
+		if hi, err = time.Parse(timestampLayout+pgZoneLayout(s), string(s)); err != nil {
 			return err
 		}
 	}
diff --git a/pgsql/tstzrangearr.go b/pgsql/tstzrangearr.go
index 04543f8..4e9b6f6 100644
--- a/pgsql/tstzrangearr.go
+++ b/pgsql/tstzrangearr.go
@@ -69,11 +69,11 @@ func (v tstzRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 		a[1] = a[1][2 : len(a[1])-2]
 
 		var t0, t1 time.Time
-		t0, err = time.ParseInLocation(timestamptzLayout, string(a[0]), noZone)
+		t0, err = time.ParseInLocation(timestampLayout+pgZoneLayout(a[0]), string(a[0]), noZone)
 		if err != nil {
 			return err
 		}
-		t1, err = time.ParseInLocation(timestamptzLayout, string(a[1]), noZone)
+		t1, err = time.ParseInLocation(timestampLayout+pgZoneLayout(a[1]), string(a[1]), noZone)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 07e82fc08f6731a8ec6493fcce4f30c319d0e0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 11/93] fix: range array readers accept empty, unbounded and
 NULL elements

---
 pgsql/convert_util.go | 33 +++------------------------------
 pgsql/daterangearr.go |  2 +-
 pgsql/int4rangearr.go | 24 ++++++++++++------------
 pgsql/int8rangearr.go | 24 ++++++++++++------------
 pgsql/numrangearr.go  | 24 ++++++++++++------------
 pgsql/tsrangearr.go   | 21 ++++++++++-----------
 pgsql/tstzrangearr.go | 21 ++++++++++-----------
 7 files changed, 60 insertions(+), 89 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 1771d61..83af43a 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -219,6 +219,9 @@ func pgparsedate(a []byte) (time.Time, error) {
 }
 
 func pgParseRange(a []byte) (out [2][]byte) {
+	if len(a) < 2 { // NULL element of a range array?
+		return out
+	}
 	a = a[1 : len(a)-1] // drop range delimiters
 
 	for i := 0; i < len(a); i++ {
@@ -232,36 +235,6 @@ func pgParseRange(a []byte) (out [2][]byte) {
 	return out
 }
 
-// Expected format: '{STRING [, ...]}' where STRING is a double quoted string.
-func pgParseQuotedStringArray(a []byte) (out [][]byte) {
-	a = a[1 : len(a)-1] // drop curly braces
-
-mainloop:
-	for i := 0; i < len(a); i++ {
-		if a[i] == '"' { // start of string
-			for j := i + 1; j < len(a); j++ {
-				if a[j] == '\\' {
-					j++ // skip escaped char
-					continue
-				}
-
-				if a[j] == '"' { // end of string
-					out = append(out, a[i+1:j])
-					i = j + 1
-					continue mainloop
-				}
-			}
-		}
-
-		if a[i] == 'N' { // NULL?
-			out = append(out, []byte(nil))
-			i += 4
-		}
-	}
-
-	return out
-}
-
 // Expected format: '{STRING [, ...]}' where STRING is either an unquoted or a double quoted string.
 func pgParseStringArray(a []byte) (out [][]byte) {
 	a = a[1 : len(a)-1] // drop curly braces
diff --git a/pgsql/daterangearr.go b/pgsql/daterangearr.go
index b8dac6f..2c580b1 100644
--- a/pgsql/daterangearr.go
+++ b/pgsql/daterangearr.go
@@ -63,7 +63,7 @@ func (v dateRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]time.Time, len(elems))
 
 	for i, elem := range elems {
diff --git a/pgsql/int4rangearr.go b/pgsql/int4rangearr.go
index 41d8679..9690f43 100644
--- a/pgsql/int4rangearr.go
+++ b/pgsql/int4rangearr.go
@@ -164,7 +164,7 @@ func (v int4RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int, len(elems))
 
 	for i, elem := range elems {
@@ -227,7 +227,7 @@ func (v int4RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int8, len(elems))
 
 	for i, elem := range elems {
@@ -290,7 +290,7 @@ func (v int4RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int16, len(elems))
 
 	for i, elem := range elems {
@@ -353,7 +353,7 @@ func (v int4RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int32, len(elems))
 
 	for i, elem := range elems {
@@ -416,7 +416,7 @@ func (v int4RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int64, len(elems))
 
 	for i, elem := range elems {
@@ -479,7 +479,7 @@ func (v int4RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint, len(elems))
 
 	for i, elem := range elems {
@@ -542,7 +542,7 @@ func (v int4RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint8, len(elems))
 
 	for i, elem := range elems {
@@ -605,7 +605,7 @@ func (v int4RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint16, len(elems))
 
 	for i, elem := range elems {
@@ -668,7 +668,7 @@ func (v int4RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint32, len(elems))
 
 	for i, elem := range elems {
@@ -731,7 +731,7 @@ func (v int4RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint64, len(elems))
 
 	for i, elem := range elems {
@@ -794,7 +794,7 @@ func (v int4RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]float32, len(elems))
 
 	for i, elem := range elems {
@@ -857,7 +857,7 @@ func (v int4RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]float64, len(elems))
 
 	for i, elem := range elems {
diff --git a/pgsql/int8rangearr.go b/pgsql/int8rangearr.go
index 538e7e1..8096295 100644
--- a/pgsql/int8rangearr.go
+++ b/pgsql/int8rangearr.go
@@ -164,7 +164,7 @@ func (v int8RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int, len(elems))
 
 	for i, elem := range elems {
@@ -227,7 +227,7 @@ func (v int8RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int8, len(elems))
 
 	for i, elem := range elems {
@@ -290,7 +290,7 @@ func (v int8RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int16, len(elems))
 
 	for i, elem := range elems {
@@ -353,7 +353,7 @@ func (v int8RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int32, len(elems))
 
 	for i, elem := range elems {
@@ -416,7 +416,7 @@ func (v int8RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int64, len(elems))
 
 	for i, elem := range elems {
@@ -479,7 +479,7 @@ func (v int8RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint, len(elems))
 
 	for i, elem := range elems {
@@ -542,7 +542,7 @@ func (v int8RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint8, len(elems))
 
 	for i, elem := range elems {
@@ -605,7 +605,7 @@ func (v int8RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint16, len(elems))
 
 	for i, elem := range elems {
@@ -668,7 +668,7 @@ func (v int8RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint32, len(elems))
 
 	for i, elem := range elems {
@@ -731,7 +731,7 @@ func (v int8RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint64, len(elems))
 
 	for i, elem := range elems {
@@ -794,7 +794,7 @@ func (v int8RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]float32, len(elems))
 
 	for i, elem := range elems {
@@ -857,7 +857,7 @@ func (v int8RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]float64, len(elems))
 
 	for i, elem := range elems {
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index c0c8b8b..0588230 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -164,7 +164,7 @@ func (v numRangeArrayToIntArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int, len(elems))
 
 	for i, elem := range elems {
@@ -227,7 +227,7 @@ func (v numRangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int8, len(elems))
 
 	for i, elem := range elems {
@@ -290,7 +290,7 @@ func (v numRangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int16, len(elems))
 
 	for i, elem := range elems {
@@ -353,7 +353,7 @@ func (v numRangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int32, len(elems))
 
 	for i, elem := range elems {
@@ -416,7 +416,7 @@ func (v numRangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]int64, len(elems))
 
 	for i, elem := range elems {
@@ -479,7 +479,7 @@ func (v numRangeArrayToUintArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint, len(elems))
 
 	for i, elem := range elems {
@@ -542,7 +542,7 @@ func (v numRangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint8, len(elems))
 
 	for i, elem := range elems {
@@ -605,7 +605,7 @@ func (v numRangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint16, len(elems))
 
 	for i, elem := range elems {
@@ -668,7 +668,7 @@ func (v numRangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint32, len(elems))
 
 	for i, elem := range elems {
@@ -731,7 +731,7 @@ func (v numRangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]uint64, len(elems))
 
 	for i, elem := range elems {
@@ -794,7 +794,7 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]float32, len(elems))
 
 	for i, elem := range elems {
@@ -857,7 +857,7 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	ranges := make([][2]float64, len(elems))
 
 	for i, elem := range elems {
diff --git a/pgsql/tsrangearr.go b/pgsql/tsrangearr.go
index b6312fc..e88eab5 100644
--- a/pgsql/tsrangearr.go
+++ b/pgsql/tsrangearr.go
@@ -1,6 +1,7 @@
 package pgsql
 
 import (
+	"bytes"
 	"database/sql"
 	"database/sql/driver"
 	"time"
@@ -59,23 +60,21 @@ func (v tsRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	slice := make([][2]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
 		a := pgParseRange(elems[i])
 
-		// drop surrounding escaped double quotes
-		a[0] = a[0][2 : len(a[0])-2]
-		a[1] = a[1][2 : len(a[1])-2]
-
 		var t0, t1 time.Time
-		t0, err = time.ParseInLocation(timestampLayout, string(a[0]), noZone)
-		if err != nil {
-			return err
+		if lo := bytes.Trim(a[0], `"`); len(lo) > 0 {
+			if t0, err = time.ParseInLocation(timestampLayout, string(lo), noZone); err != nil {
+				return err
+			}
 		}
-		t1, err = time.ParseInLocation(timestampLayout, string(a[1]), noZone)
-		if err != nil {
-			return err
+		if hi := bytes.Trim(a[1], `"`); len(hi) > 0 {
+			if t1, err = time.ParseInLocation(timestampLayout, string(hi), noZone); err != nil {
+				return err
+			}
 		}
 
 		slice[i][0] = t0
diff --git a/pgsql/tstzrangearr.go b/pgsql/tstzrangearr.go
index 4e9b6f6..341419f 100644
--- a/pgsql/tstzrangearr.go
+++ b/pgsql/tstzrangearr.go
@@ -1,6 +1,7 @@
 package pgsql
 
 import (
+	"bytes"
 	"database/sql"
 	"database/sql/driver"
 	"time"
@@ -59,23 +60,21 @@ func (v tstzRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	slice := make([][2]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
 		a := pgParseRange(elems[i])
 
-		// drop surrounding escaped double quotes
-		a[0] = a[0][2 : len(a[0])-2]
-		a[1] = a[1][2 : len(a[1])-2]
-
 		var t0, t1 time.Time
-		t0, err = time.ParseInLocation(timestampLayout+pgZoneLayout(a[0]), string(a[0]), noZone)
-		if err != nil {
-			return err
+		if lo := bytes.Trim(a[0], `"`); len(lo) > 0 {
+			if t0, err = time.ParseInLocation(timestampLayout+pgZoneLayout(lo), string(lo), noZone); err != nil {
+				return err
+			}
 		}
-		t1, err = time.ParseInLocation(timestampLayout+pgZoneLayout(a[1]), string(a[1]), noZone)
-		if err != nil {
-			return err
+		if hi := bytes.Trim(a[1], `"`); len(hi) > 0 {
+			if t1, err = time.ParseInLocation(timestampLayout+pgZoneLayout(hi), string(hi), noZone); err != nil {
+				return err
+			}
 		}
 
 		slice[i][0] = t0
-- 
2.43.0


From 6cccee0c7102a28ed91dfef39726966bc858885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 12/93] fix: char[] readers keep NULL elements in their
 positions

---
 pgsql/convert_util.go | 43 ++++++++-----------------------------------
 1 file changed, 8 insertions(+), 35 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 83af43a..a91015f 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -33,24 +33,11 @@ func srcbytes(src interface{}) ([]byte, error) {
 func pgparsearray2(a []byte) (out []byte) {
 	out = make([]byte, 0, len(a))
 
-	a = a[1 : len(a)-1] // drop curly braces
-
-	for i := 0; i < len(a); i++ {
-		if a[i] == '"' {
-			if a[i+1] == '\\' {
-				out = append(out, a[i+2])
-				i += 3
-				continue
-			} else {
-				out = append(out, a[i+1])
-				i += 2
-				continue
-			}
-		}
-
-		if a[i] != ',' {
-			out = append(out, a[i])
+	for _, elem := range pgParseStringArray(a) {
+		if len(elem) == 0 { // NULL or empty?
+			elem = []byte{0}
 		}
+		out = append(out, elem...)
 	}
 
 	return out
@@ -60,25 +47,11 @@ func pgparsearray2(a []byte) (out []byte) {
 func pgparsearray3(a []byte) (out []rune) {
 	out = make([]rune, 0)
 
-	a = a[1 : len(a)-1] // drop curly braces
-	r := bytes.Runes(a)
-
-	for i := 0; i < len(r); i++ {
-		if r[i] == '"' {
-			if r[i+1] == '\\' {
-				out = append(out, r[i+2])
-				i += 3
-				continue
-			} else {
-				out = append(out, r[i+1])
-				i += 2
-				continue
-			}
-		}
-
-		if r[i] != ',' {
-			out = append(out, r[i])
+	for _, elem := range pgParseStringArray(a) {
+		if len(elem) == 0 { // NULL or empty?
+			elem = []byte{0}
 		}
+		out = append(out, bytes.Runes(elem)...)
 	}
 
 	return out
-- 
2.43.0


From 3dcb2a555df2cfd86ca70b40868bb61ccc38df43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 13/93] fix: inet conversions of bare addresses, masked
 addresses and NULL elements

---
 pgsql/convert_util.go | 19 +++++++++++++++++++
 pgsql/inet.go         |  4 ++--
 pgsql/inetarr.go      |  6 +++---
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index a91015f..9925733 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -3,6 +3,7 @@ package pgsql
 import (
 	"bytes"
 	"encoding/hex"
+	"net"
 	"strconv"
 	"time"
 )
@@ -685,6 +686,24 @@ func pgParseMoney(a []byte) (int64, error) {
 	return strconv.ParseInt(string(digits), 10, 64)
 }
 
+// pgAppendInet appends the given address, or network if it has a mask.
+func pgAppendInet(buf []byte, n net.IPNet) []byte {
+	if n.IP == nil {
+		return append(buf, 'N', 'U', 'L', 'L')
+	} else if n.Mask == nil {
+		return append(buf, n.IP.String()...)
+	}
+	return append(buf, n.String()...)
+}
+
+// Expected format: 'ADDR[/N]'.
+func pgParseInetIP(s string) net.IP {
+	if ip, _, err := net.ParseCIDR(s); err == nil {
+		return ip
+	}
+	return net.ParseIP(s)
+}
+
 // pgAppendQuote1
 func pgAppendQuote1(buf, elem []byte) []byte {
 	buf = append(buf, '"')
diff --git a/pgsql/inet.go b/pgsql/inet.go
index f4ae042..03af395 100644
--- a/pgsql/inet.go
+++ b/pgsql/inet.go
@@ -34,7 +34,7 @@ func (v inetFromIPNet) Value() (driver.Value, error) {
 	if v.val.IP == nil && v.val.Mask == nil {
 		return nil, nil
 	}
-	return []byte(v.val.String()), nil
+	return pgAppendInet(nil, v.val), nil
 }
 
 type inetToIPNet struct {
@@ -86,6 +86,6 @@ func (v inetToIP) Scan(src interface{}) error {
 		return nil
 	}
 
-	*v.val = net.ParseIP(str)
+	*v.val = pgParseInetIP(str)
 	return nil
 }
diff --git a/pgsql/inetarr.go b/pgsql/inetarr.go
index c5f9478..2919781 100644
--- a/pgsql/inetarr.go
+++ b/pgsql/inetarr.go
@@ -40,7 +40,7 @@ func (v inetArrayFromIPNetSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ipnet := range v.val {
-		out = append(out, []byte(ipnet.String())...)
+		out = pgAppendInet(out, ipnet)
 		out = append(out, ',')
 	}
 
@@ -89,7 +89,7 @@ func (v inetArrayFromIPSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ip := range v.val {
-		out = append(out, []byte(ip.String())...)
+		out = pgAppendInet(out, net.IPNet{IP: ip})
 		out = append(out, ',')
 	}
 
@@ -113,7 +113,7 @@ func (v inetArrayToIPSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	ips := make([]net.IP, len(elems))
 	for i := 0; i < len(elems); i++ {
-		ips[i] = net.ParseIP(string(elems[i]))
+		ips[i] = pgParseInetIP(string(elems[i]))
 	}
 
 	*v.val = ips
-- 
2.43.0


From 0f6ebdc3375ad79ba7cdfa89e72da34914c518ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 14/93] fix: slice readers reset the destination on NULL

---
 pgsql/inet.go     | 1 +
 pgsql/linearr.go  | 1 +
 pgsql/lsegarr.go  | 1 +
 pgsql/macaddr.go  | 1 +
 pgsql/pointarr.go | 1 +
 pgsql/time.go     | 2 ++
 pgsql/timetz.go   | 2 ++
 7 files changed, 9 insertions(+)

diff --git a/pgsql/inet.go b/pgsql/inet.go
index 03af395..aee596e 100644
--- a/pgsql/inet.go
+++ b/pgsql/inet.go
@@ -83,6 +83,7 @@ func (v inetToIP) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/linearr.go b/pgsql/linearr.go
index 5d8e7a0..1f13ae4 100644
--- a/pgsql/linearr.go
+++ b/pgsql/linearr.go
@@ -57,6 +57,7 @@ func (v lineArrayToFloat64Array3Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/lsegarr.go b/pgsql/lsegarr.go
index e7c5a0c..5e556b0 100644
--- a/pgsql/lsegarr.go
+++ b/pgsql/lsegarr.go
@@ -59,6 +59,7 @@ func (v lsegArrayToFloat64Array2Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/macaddr.go b/pgsql/macaddr.go
index 97d9ce3..a472120 100644
--- a/pgsql/macaddr.go
+++ b/pgsql/macaddr.go
@@ -39,6 +39,7 @@ func (v macAddrToHardwareAddr) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/pointarr.go b/pgsql/pointarr.go
index 79aebda..961f867 100644
--- a/pgsql/pointarr.go
+++ b/pgsql/pointarr.go
@@ -55,6 +55,7 @@ func (v pointArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/time.go b/pgsql/time.go
index eab6d66..f0945de 100644
--- a/pgsql/time.go
+++ b/pgsql/time.go
@@ -43,6 +43,8 @@ func (v timeToByteSlice) Scan(src interface{}) error {
 		*v.val = data
 	case string:
 		*v.val = []byte(data)
+	case nil:
+		*v.val = nil
 	}
 	return nil
 }
diff --git a/pgsql/timetz.go b/pgsql/timetz.go
index 88cc3ea..59e7645 100644
--- a/pgsql/timetz.go
+++ b/pgsql/timetz.go
@@ -43,6 +43,8 @@ func (v timetzToByteSlice) Scan(src interface{}) error {
 		*v.val = data
 	case string:
 		*v.val = []byte(data)
+	case nil:
+		*v.val = nil
 	}
 	return nil
 }
-- 
2.43.0


From c0e19d8fccf058932194927a6c5c1f944b264ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 15/93] fix: readers copy the bytes owned by the driver

---
 pgsql/any.go    | 3 +++
 pgsql/time.go   | 2 +-
 pgsql/timetz.go | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pgsql/any.go b/pgsql/any.go
index ade61c8..902e529 100644
--- a/pgsql/any.go
+++ b/pgsql/any.go
@@ -15,6 +15,9 @@ type anyToEmptyInterface struct {
 }
 
 func (v anyToEmptyInterface) Scan(src interface{}) error {
+	if b, ok := src.([]byte); ok {
+		src = append([]byte{}, b...) // the driver may reuse its buffer
+	}
 	*v.val = src
 	return nil
 }
diff --git a/pgsql/time.go b/pgsql/time.go
index f0945de..befc665 100644
--- a/pgsql/time.go
+++ b/pgsql/time.go
@@ -40,7 +40,7 @@ func (v timeToByteSlice) Scan(src interface{}) error {
 	case time.Time:
 		*v.val = []byte(data.Format(timeLayout))
 	case []byte:
-		*v.val = data
+		*v.val = append([]byte{}, data...)
 	case string:
 		*v.val = []byte(data)
 	case nil:
diff --git a/pgsql/timetz.go b/pgsql/timetz.go
index 59e7645..76e9b37 100644
--- a/pgsql/timetz.go
+++ b/pgsql/timetz.go
@@ -40,7 +40,7 @@ func (v timetzToByteSlice) Scan(src interface{}) error {
 	case time.Time:
 		*v.val = []byte(data.Format(timetzLayout))
 	case []byte:
-		*v.val = data
+		*v.val = append([]byte{}, data...)
 	case string:
 		*v.val = []byte(data)
 	case nil:
-- 
2.43.0


From 2d1bfedefc053201a8be92fea29ebb6048e44402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 16/93] fix: numeric[] readers reject numbers that overflow the
 element type

---
 pgsql/numericarr.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pgsql/numericarr.go b/pgsql/numericarr.go
index 0398a41..8948c18 100644
--- a/pgsql/numericarr.go
+++ b/pgsql/numericarr.go
@@ -213,7 +213,7 @@ func (v numericArrayToInt8Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int8s := make([]int8, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 8)
 		if err != nil {
 			return err
 		}
@@ -262,7 +262,7 @@ func (v numericArrayToInt16Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int16s := make([]int16, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 16)
 		if err != nil {
 			return err
 		}
@@ -311,7 +311,7 @@ func (v numericArrayToInt32Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int32s := make([]int32, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 32)
 		if err != nil {
 			return err
 		}
@@ -460,7 +460,7 @@ func (v numericArrayToUint8Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint8s := make([]uint8, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 8)
 		if err != nil {
 			return err
 		}
@@ -509,7 +509,7 @@ func (v numericArrayToUint16Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint16s := make([]uint16, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 16)
 		if err != nil {
 			return err
 		}
@@ -558,7 +558,7 @@ func (v numericArrayToUint32Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint32s := make([]uint32, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 32)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d9cfe8fd2995f4443bb73a904e3fa81b5b3bbf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 17/93] fix: int8range[] reader of floats accepts the whole
 int8 range

---
 pgsql/int8rangearr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgsql/int8rangearr.go b/pgsql/int8rangearr.go
index 8096295..d75c346 100644
--- a/pgsql/int8rangearr.go
+++ b/pgsql/int8rangearr.go
@@ -801,12 +801,12 @@ func (v int8RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 		var lo, hi int64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 32); err != nil {
+			if lo, err = strconv.ParseInt(string(arr[0]), 10, 64); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 32); err != nil {
+			if hi, err = strconv.ParseInt(string(arr[1]), 10, 64); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 2b8e074350601dda535bd39b5e35d61373feda42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 18/93] fix: uuid[], varbit[] and char[] readers handle NULL
 elements

---
 pgsql/chararr.go      | 4 +++-
 pgsql/convert_util.go | 4 ++++
 pgsql/uuidarr.go      | 7 +++++++
 pgsql/varbitarr.go    | 3 +++
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pgsql/chararr.go b/pgsql/chararr.go
index 080fd82..ce7076a 100644
--- a/pgsql/chararr.go
+++ b/pgsql/chararr.go
@@ -267,7 +267,9 @@ func (v charArrayToStringSlice) Scan(src interface{}) error {
 	runes := pgparsearray3(data)
 	val := make([]string, len(runes))
 	for i := 0; i < len(val); i++ {
-		val[i] = string(runes[i])
+		if runes[i] != 0 {
+			val[i] = string(runes[i])
+		}
 	}
 	*v.val = val
 	return nil
diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 9925733..b72d979 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -3,6 +3,7 @@ package pgsql
 import (
 	"bytes"
 	"encoding/hex"
+	"errors"
 	"net"
 	"strconv"
 	"time"
@@ -623,6 +624,9 @@ func pgParseVectorArray(a []byte) (out [][][]byte) {
 
 // Expected format: 'xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx'.
 func pgParseUUID(data []byte) (arr [16]byte, err error) {
+	if len(data) != 36 {
+		return arr, errors.New("pgsql: invalid uuid length")
+	}
 	if _, err = hex.Decode(arr[0:4], data[0:8]); err != nil {
 		return arr, err
 	}
diff --git a/pgsql/uuidarr.go b/pgsql/uuidarr.go
index 7095a42..d8e4f3e 100644
--- a/pgsql/uuidarr.go
+++ b/pgsql/uuidarr.go
@@ -82,6 +82,10 @@ func (v uuidArrayToByteArray16Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	uuids := make([][16]byte, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if string(elems[i]) == `NULL` {
+			continue
+		}
+
 		uuid, err := pgParseUUID(elems[i])
 		if err != nil {
 			return err
@@ -143,6 +147,9 @@ func (v uuidArrayToStringSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	strings := make([]string, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if string(elems[i]) == `NULL` {
+			continue
+		}
 		strings[i] = string(elems[i])
 	}
 
diff --git a/pgsql/varbitarr.go b/pgsql/varbitarr.go
index a73bba0..fc539d0 100644
--- a/pgsql/varbitarr.go
+++ b/pgsql/varbitarr.go
@@ -296,6 +296,9 @@ func (v varBitArrayToStringSlice) Scan(src interface{}) error {
 			continue
 		}
 
+		if string(elems[i]) == `NULL` {
+			continue
+		}
 		strings[i] = string(elems[i])
 	}
 
-- 
2.43.0


From e563132463257f0c6eecc2da6577337a830c2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 19/93] fix: box[] reader does not drop NULL elements

---
 pgsql/convert_util.go | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index b72d979..5decfc7 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -545,26 +545,14 @@ func pgParseBoxArray(a []byte) (out [][]byte) {
 		return out // nothing to do if empty "{}"
 	}
 
-	a = a[2 : len(a)-2] // drop the first "{(" and last ")}"
-
-	n := 0 // start of next elem
-	for i := 0; i < len(a); i++ {
-		if a[i] == ',' {
-			out = append(out, a[n:i])
-			n = i + 1
-		}
-
-		if a[i] == ')' {
-			out = append(out, a[n:i])
-			i += 2 // skip over ",(" or ";("
-			n = i + 1
+	// each element is four numbers, or, if it is NULL, four empty slices
+	for _, elem := range bytes.Split(a[1:len(a)-1], []byte{';'}) {
+		if string(elem) == `NULL` {
+			out = append(out, nil, nil, nil, nil)
+		} else {
+			out = append(out, pgParseBox(elem)...)
 		}
 	}
-
-	// append the last element
-	if n > 0 {
-		out = append(out, a[n:])
-	}
 	return out
 }
 
-- 
2.43.0


From 92702ed3417eeafa4932cb990a5d8bedcc296414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 20/93] fix: JSON and XML readers accept strings and reset the
 destination on NULL

---
 pgsql/json.go | 12 ++++++++++--
 pgsql/xml.go  | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pgsql/json.go b/pgsql/json.go
index 4f8138c..87fbf99 100644
--- a/pgsql/json.go
+++ b/pgsql/json.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"database/sql/driver"
 	"encoding/json"
+	"reflect"
 )
 
 // JSON returns a value that implements both the driver.Valuer and sql.Scanner
@@ -28,8 +29,15 @@ func (j jsontype) Value() (driver.Value, error) {
 }
 
 func (j jsontype) Scan(src interface{}) error {
-	if b, ok := src.([]byte); ok {
-		return json.Unmarshal(b, j.val)
+	switch data := src.(type) {
+	case []byte:
+		return json.Unmarshal(data, j.val)
+	case string:
+		return json.Unmarshal([]byte(data), j.val)
+	case nil:
+		if rv := reflect.ValueOf(j.val); rv.Kind() == reflect.Ptr && !rv.IsNil() {
+			rv.Elem().Set(reflect.Zero(rv.Elem().Type()))
+		}
 	}
 	return nil
 }
diff --git a/pgsql/xml.go b/pgsql/xml.go
index dac30b4..9b17ee8 100644
--- a/pgsql/xml.go
+++ b/pgsql/xml.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"database/sql/driver"
 	"encoding/xml"
+	"reflect"
 )
 
 // XML returns a value that implements both the driver.Valuer and sql.Scanner
@@ -21,8 +22,15 @@ type xmltype struct {
 }
 
 func (x xmltype) Scan(src interface{}) error {
-	if b, ok := src.([]byte); ok {
-		return xml.Unmarshal(b, x.val)
+	switch data := src.(type) {
+	case []byte:
+		return xml.Unmarshal(data, x.val)
+	case string:
+		return xml.Unmarshal([]byte(data), x.val)
+	case nil:
+		if rv := reflect.ValueOf(x.val); rv.Kind() == reflect.Ptr && !rv.IsNil() {
+			rv.Elem().Set(reflect.Zero(rv.Elem().Type()))
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 9cb4838a8bce38bd04e0955ffe90fad87469e00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 21/93] fix: filters drop logical operators and parentheses
 that have no operands

---
 filter/filter.go | 60 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 56 insertions(+), 4 deletions(-)

diff --git a/filter/filter.go b/filter/filter.go
index 2e21f61..28bc8ae 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -477,9 +477,9 @@ var (
 // The ToSQL method implements the gosql.Filter interface.
 func (f *filter) ToSQL(ppos int) (filterString string, params []interface{}) {
 	w := sqlWriter{p: ppos}
-	if len(f.where) > 0 {
+	if where := compact(f.where); len(where) > 0 {
 		w.WriteString(" WHERE ")
-		for _, node := range f.where {
+		for _, node := range where {
 			node.write(&w)
 		}
 	}
@@ -500,6 +500,58 @@ func (f *filter) ToSQL(ppos int) (filterString string, params []interface{}) {
 	return w.String(), w.params
 }
 
+// compact returns the given nodes without the empty parentheses, and without the
+// logical operators that are missing an operand. Such nodes are left behind by
+// predicates that were not added, e.g. because their column key is unknown.
+// If what's removed was joined by both AND and OR, then the OR is retained.
+func compact(nodes []sqlNode) (out []sqlNode) {
+	type group struct {
+		start int     // where, in out, the group starts
+		oper  sqlNode // the logical operator that precedes the group
+	}
+
+	var oper sqlNode
+	var groups []group
+	join := func() {
+		if len(out) > 0 && out[len(out)-1].canAndOr() {
+			if oper == nil {
+				oper = sqlAnd{}
+			}
+			out = append(out, oper)
+		}
+		oper = nil
+	}
+
+	for _, node := range nodes {
+		switch node.(type) {
+		case sqlAnd:
+			if oper == nil {
+				oper = node
+			}
+		case sqlOr:
+			oper = node
+		case sqlLParen:
+			groups = append(groups, group{len(out), oper})
+			join()
+			out = append(out, node)
+		case sqlRParen:
+			g := group{}
+			if n := len(groups) - 1; n >= 0 {
+				g, groups = groups[n], groups[:n]
+			}
+			if n := len(out) - 1; n >= 0 && out[n] == (sqlLParen{}) {
+				out, oper = out[:g.start], g.oper
+			} else {
+				out, oper = append(out, node), nil
+			}
+		default:
+			join()
+			out = append(out, node)
+		}
+	}
+	return out
+}
+
 // countFilter is an alternative implementation of gosql.Filter that is
 // intended to be used with SELECT COUNT queries.
 type countFilter filter
@@ -512,9 +564,9 @@ var (
 // ToSQL implements the gosql.Filter interface.
 func (f *countFilter) ToSQL(ppos int) (filterString string, params []interface{}) {
 	w := sqlWriter{p: ppos}
-	if len(f.where) > 0 {
+	if where := compact(f.where); len(where) > 0 {
 		w.WriteString(" WHERE ")
-		for _, node := range f.where {
+		for _, node := range where {
 			node.write(&w)
 		}
 	}
-- 
2.43.0


From 2b595630f3424d2a2c6dc8358dbaaeb35ab56d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 22/93] fix: filters with an empty IN list match nothing

---
 filter/convenience.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filter/convenience.go b/filter/convenience.go
index b323a6c..1b17537 100644
--- a/filter/convenience.go
+++ b/filter/convenience.go
@@ -16,6 +16,9 @@ func (sqlIn[T]) canAndOr() bool { return true }
 func (n sqlIn[T]) write(w *sqlWriter) {
 	w.WriteString(n.col)
 	w.WriteString(" IN (")
+	if len(n.vals) == 0 {
+		w.WriteString("NULL") // an empty list is not valid SQL
+	}
 	for i := range n.vals {
 		if i > 0 {
 			w.WriteString(",")
-- 
2.43.0


From 739f231d1ccb3eaebd96477b2e31a17acb5e0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 23/93] fix: filters do not overflow the offset of far pages

---
 filter/filter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filter/filter.go b/filter/filter.go
index 28bc8ae..8269075 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -2,6 +2,7 @@ package filter
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -342,7 +343,11 @@ func (c *Constructor) Offset(start int64) {
 // Page, using the given value, calculates the argument for the OFFSET clause.
 func (c *Constructor) Page(page int64) {
 	if page > 0 && c.filter.limit >= 0 {
-		c.filter.offset = c.filter.limit * (page - 1)
+		if c.filter.limit > 0 && page-1 > math.MaxInt64/c.filter.limit {
+			c.filter.offset = math.MaxInt64 // beyond the last row
+		} else {
+			c.filter.offset = c.filter.limit * (page - 1)
+		}
 	}
 }
 
-- 
2.43.0


From 2caf6a3212e549a4c6303f84386349ea7f54f968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 24/93] fix: UnmarshalFQL leaves no logical operators without
 operands behind

---
 filter/filter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filter/filter.go b/filter/filter.go
index 8269075..17f4a51 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -358,6 +358,13 @@ func (c *Constructor) Page(page int64) {
 func (c *Constructor) UnmarshalFQL(str string) error {
 	str = strings.Trim(str, ";,") // sanitize
 
+	// The predicates with unknown keys, and the logical operators
+	// joining them, should have no effect on what's added later.
+	start := len(c.filter.where)
+	defer func() {
+		c.filter.where = append(c.filter.where[:start], compact(c.filter.where[start:])...)
+	}()
+
 	z := fql.NewTokenizer(str)
 	for {
 		tok, err := z.Next()
-- 
2.43.0


From ec2abdddc7f28f4ac5b2f50d871e34dcd153a3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 25/93] fix: accept the documented isbetweenasym and
 notbetweenasym predicates

---
 internal/analysis/enums.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/analysis/enums.go b/internal/analysis/enums.go
index d93b68e..7d3519d 100644
--- a/internal/analysis/enums.go
+++ b/internal/analysis/enums.go
@@ -355,6 +355,7 @@ var predicates = [...]string{
 // predicateAdjectives is a whitelist of predicate adjectives and adverbs. Used for parsing tags.
 var predicateAdjectives = []string{
 	"between",
+	"betweenasym",
 	"betweensym",
 	"distinct",
 	"false",
-- 
2.43.0


From 86172dbfa26bc2c3edc5d4c56508c01c59787301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 26/93] fix: generate NOT and SYMMETRIC of the between
 predicates

---
 internal/generator/generator.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b931130..236448e 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1409,6 +1409,16 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 // makeSQLBetweenPredicate
 func makeSQLBetweenPredicate(g *generator, cond *postgres.BetweenConditional) SQL.BetweenPredicate {
 	predicate := SQL.BetweenPredicate{}
+	switch cond.Predicate {
+	case analysis.NotBetween, analysis.NotBetweenSym, analysis.NotBetweenAsym:
+		predicate.Not = true
+	}
+	switch cond.Predicate {
+	case analysis.IsBetweenSym, analysis.NotBetweenSym:
+		predicate.Sym = SQL.SYMMETRIC
+	case analysis.IsBetweenAsym, analysis.NotBetweenAsym:
+		predicate.Sym = SQL.ASYMMETRIC
+	}
 	predicate.Predicand = makeColRef(cond.ColIdent)
 
 	switch lower := cond.LowerBound.(type) {
-- 
2.43.0


From 964e3aa42660b1bb286d4b2919f6c784e74dc32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 27/93] fix: compare zero values in the column's type when
 writing NULL

---
 internal/generator/generator.go | 9 +++++++++
 internal/postgres/oid/types.go  | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 236448e..3ddb96e 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -705,6 +705,15 @@ func addNULLIFCallExpr(x SQL.ValueExpr, c *postgres.Column) SQL.ValueExpr {
 		nullif.Value = x
 		nullif.Expr = SQL.Literal{lit}
 
+		// With the plain literal the server would resolve the type of x
+		// to that of the literal, i.e. integer or text, which either can't
+		// represent the column's values, or compares them textually.
+		switch c.Type.OID {
+		case oid.Int8, oid.Float4, oid.Numeric, oid.Bytea,
+			oid.Date, oid.Time, oid.Timetz, oid.Timestamp, oid.Timestamptz:
+			nullif.Expr = SQL.CastExpr{Expr: SQL.Literal{lit}, Type: c.Type.NameFmt}
+		}
+
 		cast := SQL.CastExpr{}
 		cast.Expr = nullif
 		cast.Type = c.Type.NameFmt
diff --git a/internal/postgres/oid/types.go b/internal/postgres/oid/types.go
index 5bd705d..04e00fe 100644
--- a/internal/postgres/oid/types.go
+++ b/internal/postgres/oid/types.go
@@ -272,7 +272,7 @@ var TypeToZeroValue = map[OID]string{
 	TimeArr:        `'{}'`,
 	Timestamp:      `'0001-01-01 00:00:00'`,
 	TimestampArr:   `'{}'`,
-	Timestamptz:    `'0001-01-01 00:00:00'`,
+	Timestamptz:    `'0001-01-01 00:00:00+00'`,
 	TimestamptzArr: `'{}'`,
 	Timetz:         `'00:00:00+00'`,
 	TimetzArr:      `'{}'`,
-- 
2.43.0


From d19cbde723e76a1fd5ab65a3bfd1e279740a0f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:11 +0000
Subject: [PATCH 28/93] fix: place ORDER BY, LIMIT, OFFSET, and RETURNING after
 a filter's clauses

---
 internal/generator/generator.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 3ddb96e..2bdd79a 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1046,6 +1046,14 @@ func buildSQLSelectStatement(g *generator, qs *analysis.QueryStruct) {
 	if qs.Join != nil {
 		stmt.Join.List = append(stmt.Join.List, g.tableJoinSlice...)
 	}
+	g.sqlMainNode = stmt
+
+	if qs.Filter != nil {
+		// the filter's WHERE clause must precede these clauses
+		g.sqlTailNode = makeSQLSelectTail(g)
+		return
+	}
+
 	stmt.Where = g.whereClause
 	stmt.Order = g.orderClause
 	stmt.Limit = g.limitClause
@@ -1053,6 +1061,15 @@ func buildSQLSelectStatement(g *generator, qs *analysis.QueryStruct) {
 	g.sqlMainNode = stmt
 }
 
+// makeSQLSelectTail returns the ORDER BY, LIMIT, and OFFSET clauses as a single
+// node, or nil if there are no such clauses.
+func makeSQLSelectTail(g *generator) SQL.Node {
+	if len(g.orderClause.List) == 0 && g.limitClause.Value == nil && g.offsetClause.Value == nil {
+		return nil
+	}
+	return SQL.NodeList{g.orderClause, g.limitClause, g.offsetClause}
+}
+
 // buildSQLDeleteStatement builds an SQL.DeleteStatement.
 func buildSQLDeleteStatement(g *generator, qs *analysis.QueryStruct) {
 	stmt := SQL.DeleteStatement{}
@@ -1063,6 +1080,15 @@ func buildSQLDeleteStatement(g *generator, qs *analysis.QueryStruct) {
 		stmt.Using.List = append(stmt.Using.List, g.tableExprSlice()...)
 	}
 
+	if qs.Filter != nil {
+		// the filter's WHERE clause must precede the RETURNING clause
+		if len(g.outputVals) > 0 {
+			g.sqlTailNode = SQL.ReturningClause(g.outputVals)
+		}
+		g.sqlMainNode = stmt
+		return
+	}
+
 	stmt.Where = g.whereClause
 	stmt.Returning = SQL.ReturningClause(g.outputVals) //returning
 	g.sqlMainNode = stmt
@@ -1102,6 +1128,10 @@ func buildSQLSelectExistsStatement(g *generator, qs *analysis.QueryStruct) {
 		stmt.Limit = g.limitClause
 		stmt.Offset = g.offsetClause
 	} else {
+		if qs.Limit == nil {
+			g.limitClause = SQL.LimitClause{} // one record is enough for EXISTS
+		}
+		g.sqlTailNode = makeSQLSelectTail(g)
 		stmt.Open = true
 		g.closeFilter = true
 	}
@@ -1764,7 +1794,7 @@ func buildQueryStringForFilter(g *generator, qs *analysis.QueryStruct) {
 }
 
 func buildQueryFilterParams(g *generator, qs *analysis.QueryStruct) {
-	if qs.Filter == nil || qs.Kind != analysis.QueryKindUpdate {
+	if qs.Filter == nil || len(g.inputArgs) == 0 {
 		g.queryFilterParams = GO.NoOp{}
 		return
 	}
-- 
2.43.0


From c0f96e303fa50e8e21792adea222920840f66644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 29/93] fix: apply limit and offset fallbacks before assembling
 the query parameters

---
 internal/generator/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 2bdd79a..26e1254 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -203,6 +203,12 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 
 	buildQueryFilterParams(g, qs)
 	buildQueryLimitOffsetFallback(g, qs)
+	if len(g.inputSliceArgs) > 0 && len(g.queryLimitAndOffsetFallback) > 1 {
+		// the params slice is assembled together with the query string,
+		// and the fallback must be applied before that
+		g.queryStringStmt = GO.StmtList{g.queryLimitAndOffsetFallback, g.queryStringStmt}
+		g.queryLimitAndOffsetFallback = GO.StmtList{GO.NoOp{}}
+	}
 
 	if qs.IsWithoutOutput() {
 		buildQueryCallExec(g, qs)
-- 
2.43.0


From 244ca5596acf0185a48a1f785266934e9eef4e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 30/93] fix: reject orderby, limit, and offset of count queries

---
 internal/analysis/analysis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index f31d8fa..e34b9b9 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1392,7 +1392,7 @@ func analyzeOnConflictUpdateDirective(a *analysis, oc *OnConflictStruct, f *type
 // the gosql.Limit directive or a plain integer field. The tag argument, if not
 // empty, is expected to hold a positive integer.
 func analyzeLimitFieldOrDirective(a *analysis, f *types.Var, tag string) error {
-	if !a.query.Kind.isSelect() {
+	if !a.query.Kind.isSelect() || a.query.Kind == QueryKindSelectCount {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
 	if a.query.Limit != nil {
@@ -1427,7 +1427,7 @@ func analyzeLimitFieldOrDirective(a *analysis, f *types.Var, tag string) error {
 // the gosql.Offset directive or a plain integer field. The tag argument,
 // if not empty, is expected to hold a positive integer.
 func analyzeOffsetFieldOrDirective(a *analysis, f *types.Var, tag string) error {
-	if !a.query.Kind.isSelect() {
+	if !a.query.Kind.isSelect() || a.query.Kind == QueryKindSelectCount {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
 	if a.query.Offset != nil {
@@ -1554,7 +1554,7 @@ func analyzeRowsAffectedField(a *analysis, f *types.Var, tag string) error {
 
 // analyzeOrderByDirective
 func analyzeOrderByDirective(a *analysis, f *types.Var, tag string) (err error) {
-	if !a.query.Kind.isSelect() {
+	if !a.query.Kind.isSelect() || a.query.Kind == QueryKindSelectCount {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
 
-- 
2.43.0


From 49a584b93ad4c09f4f501d56367bbcc94b4a0645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 31/93] fix: accept comparisons of varchar and cidr columns

---
 internal/postgres/postgres.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 4e996c3..ba8f175 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -735,6 +735,14 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 	if ctyp.Type == TypeTypeEnum { // enum labels are basically text
 		coid = oid.Text
 	}
+	// these have no operators of their own, postgres will
+	// use the operators of the binary coercible type instead.
+	switch coid {
+	case oid.VarChar:
+		coid = oid.Text
+	case oid.CIDR:
+		coid = oid.Inet
+	}
 
 	if cond.Predicate.IsArray() || cond.Quantifier > 0 {
 		// FIXME(mkopriva): this currently breaks for custom types like
@@ -746,7 +754,6 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 		if !ok && cond.Predicate.IsArray() {
 			return errPredicateOperandArray
 		} else if !ok && cond.Quantifier > 0 {
-			log.Println("EHHEHEHEHE")
 			return errPredicateOperandQuantifier
 		}
 	}
-- 
2.43.0


From 67d489ff2ba617715cae3dfa8b9a5619a4e99eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 32/93] fix: pick the comparison operator of a where field
 deterministically

---
 internal/postgres/postgres.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index ba8f175..6ac93fc 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -767,11 +768,16 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 		}
 	}
 
-	var comp *compentry
+	var keys []OpKey
 	for key := range c.db.catalog.Operators {
-		if key.Name != oprname || key.Left != coid {
-			continue
+		if key.Name == oprname && key.Left == coid {
+			keys = append(keys, key)
 		}
+	}
+	sort.Slice(keys, func(i, j int) bool { return keys[i].Right < keys[j].Right })
+
+	var comp *compentry
+	for _, key := range keys {
 
 		typ, ok := c.db.catalog.Types[key.Right]
 		if !ok {
-- 
2.43.0


From 95e9fb616d114ecd568b1da0f7013f6b59a29ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 33/93] fix: initialize every nested pointer whose path
 concatenates alike

---
 internal/generator/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 26e1254..378a6a0 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -536,7 +536,7 @@ func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
 
 		fx := g.outputVar
 		for _, node := range fr.Field.Selector {
-			key += node.Name
+			key += node.Name + "."
 
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			if node.IsPointer && !done[key] {
-- 
2.43.0


From b74050286f90b16030cc6d104da2a034846f64a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:39 +0000
Subject: [PATCH 34/93] fix: slice updates without an alias, with DEFAULT
 columns, or with a result field

---
 internal/generator/generator.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 378a6a0..1817df1 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -303,6 +303,11 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 
 	for _, fw := range g.info.Writes {
 		if canUseDefault(qs, fw.Field) {
+			if qs.IsUpdateSlice() {
+				// DEFAULT is not allowed in the VALUES list of an UPDATE
+				g.updateCols = append(g.updateCols, SQL.DEFAULT)
+				continue
+			}
 			g.inputVals = append(g.inputVals, SQL.DEFAULT)
 			continue
 		}
@@ -586,7 +591,7 @@ func buildQueryOutputSourceColumns(g *generator, qs *analysis.QueryStruct) {
 
 	for _, fr := range g.info.Reads {
 		var expr SQL.ValueExpr
-		expr = makeColRef(fr.ColIdent)
+		expr = makeRelColRef(qs, fr.ColIdent)
 		if fr.NeedsCOALESCE() {
 			expr = addCoalesceCallExpr(expr, fr.Field.CoalesceValue, fr.Column)
 		}
@@ -1023,9 +1028,17 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	if qs.Rel.Type.IsSlice {
 		stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
 
-		columns := append(g.inputCols, g.inputColsPKeys...)
+		// columns set to DEFAULT have no counterpart in the VALUES list
+		columns := SQL.NameGroup{}
+		for i, name := range g.inputCols {
+			if g.updateCols[i] != SQL.DEFAULT {
+				columns = append(columns, name)
+			}
+		}
+		columns = append(columns, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
+		tail.Returning = SQL.ReturningClause(g.outputVals)
 		g.sqlTailNode = SQL.NodeList{alias, tail}
 		g.sqlMainNode = stmt
 		return
@@ -1233,7 +1246,7 @@ func buildSQLWhereClause(g *generator, qs *analysis.QueryStruct) {
 		for i, fw := range g.info.PKeys {
 			predicate := SQL.ComparisonPredicate{}
 			predicate.Cmp = sqlCMPOP[analysis.IsEQ]
-			predicate.LPredicand = makeColRef(fw.ColIdent)
+			predicate.LPredicand = makeRelColRef(qs, fw.ColIdent)
 			predicate.RPredicand = makeParamSpec(g, fw.Field)
 
 			if qs.Rel.Type.IsSlice {
@@ -2335,6 +2348,16 @@ func makeColRef(id analysis.ColIdent) SQL.ColumnReference {
 	}
 }
 
+// makeRelColRef makes a reference to a column of the query's target relation. The
+// columns of a slice update must always be qualified as the VALUES list has columns
+// of the same name.
+func makeRelColRef(qs *analysis.QueryStruct, id analysis.ColIdent) SQL.ColumnReference {
+	if len(id.Qualifier) == 0 && isSliceUpdate(qs) {
+		id.Qualifier = `"` + strings.ReplaceAll(qs.Rel.Id.Name, `"`, `""`) + `"`
+	}
+	return makeColRef(id)
+}
+
 // makeRelIdent
 func makeRelIdent(id analysis.RelIdent) SQL.Ident {
 	return SQL.Ident{
-- 
2.43.0


From c005e829cf242d514ff24d99f19274d8a53338f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 35/93] fix: do not import the package of a relation type that
 needs no initialization

---
 internal/generator/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 1817df1..ba3144b 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -497,6 +497,10 @@ func buildQueryOutputInitRoot(g *generator, qs *analysis.QueryStruct) {
 		typ = qs.Result.Type
 	}
 
+	if !typ.IsSlice && !typ.IsIter && !typ.IsPointer {
+		return // nothing to initialize
+	}
+
 	typeNode := GO.TypeNode(GO.Ident{typ.Base.Name})
 	if typ.Base.IsImported {
 		imp := addimport(g.file, typ.Base.PkgPath, typ.Base.PkgName)
-- 
2.43.0


From 37713a2e10662f2f89e56496f4c2a4b28b1a9a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 36/93] fix: read JSON and XML documents into a new map or
 slice instead of merging into the previous one

---
 pgsql/json.go | 26 ++++++++++++++++++++++++--
 pgsql/xml.go  |  4 ++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/pgsql/json.go b/pgsql/json.go
index 87fbf99..65f488b 100644
--- a/pgsql/json.go
+++ b/pgsql/json.go
@@ -31,9 +31,9 @@ func (j jsontype) Value() (driver.Value, error) {
 func (j jsontype) Scan(src interface{}) error {
 	switch data := src.(type) {
 	case []byte:
-		return json.Unmarshal(data, j.val)
+		return unmarshalNew(json.Unmarshal, data, j.val)
 	case string:
-		return json.Unmarshal([]byte(data), j.val)
+		return unmarshalNew(json.Unmarshal, []byte(data), j.val)
 	case nil:
 		if rv := reflect.ValueOf(j.val); rv.Kind() == reflect.Ptr && !rv.IsNil() {
 			rv.Elem().Set(reflect.Zero(rv.Elem().Type()))
@@ -41,3 +41,25 @@ func (j jsontype) Scan(src interface{}) error {
 	}
 	return nil
 }
+
+// unmarshalNew invokes unmarshal with the given data and val. If val points to
+// a map or a slice then the data is unmarshaled into a new one, which replaces
+// the old one only on success, so that neither are entries of a previous value
+// retained nor is a previous value that is still referenced elsewhere modified.
+func unmarshalNew(unmarshal func([]byte, interface{}) error, data []byte, val interface{}) error {
+	rv := reflect.ValueOf(val)
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
+		return unmarshal(data, val)
+	}
+
+	switch rv.Elem().Kind() {
+	case reflect.Map, reflect.Slice:
+		nv := reflect.New(rv.Elem().Type())
+		if err := unmarshal(data, nv.Interface()); err != nil {
+			return err
+		}
+		rv.Elem().Set(nv.Elem())
+		return nil
+	}
+	return unmarshal(data, val)
+}
diff --git a/pgsql/xml.go b/pgsql/xml.go
index 9b17ee8..cd6ea1a 100644
--- a/pgsql/xml.go
+++ b/pgsql/xml.go
@@ -24,9 +24,9 @@ type xmltype struct {
 func (x xmltype) Scan(src interface{}) error {
 	switch data := src.(type) {
 	case []byte:
-		return xml.Unmarshal(data, x.val)
+		return unmarshalNew(xml.Unmarshal, data, x.val)
 	case string:
-		return xml.Unmarshal([]byte(data), x.val)
+		return unmarshalNew(xml.Unmarshal, []byte(data), x.val)
 	case nil:
 		if rv := reflect.ValueOf(x.val); rv.Kind() == reflect.Ptr && !rv.IsNil() {
 			rv.Elem().Set(reflect.Zero(rv.Elem().Type()))
-- 
2.43.0


From 679fefd1c700cab2c0298d1072b6d607d8e483f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 37/93] fix: reject pointer fields where the column needs a
 converter

The converters take the base type by value, or a pointer to it, a pointer
field made the tool emit code that doesn't compile.
---
 internal/postgres/compatibility.go | 13 +++++++++++++
 internal/postgres/postgres.go      | 12 ++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/internal/postgres/compatibility.go b/internal/postgres/compatibility.go
index 115333b..87d3c51 100644
--- a/internal/postgres/compatibility.go
+++ b/internal/postgres/compatibility.go
@@ -15,6 +15,19 @@ type compentry struct {
 	scanner string
 }
 
+// canValue reports whether or not a field of the given type can be used as
+// the argument of the entry's valuer, which takes the base type by value.
+func (ce compentry) canValue(ftyp analysis.TypeInfo) bool {
+	return ce.valuer == "" || ftyp.Kind != analysis.TypeKindPtr
+}
+
+// canScan reports whether or not the address of a field of the given type can
+// be used as the argument of the entry's scanner, which takes a pointer to the
+// base type.
+func (ce compentry) canScan(ftyp analysis.TypeInfo) bool {
+	return ce.scanner == "" || ftyp.Kind != analysis.TypeKindPtr
+}
+
 type comptable struct {
 	literal2oid map[analysis.LiteralType]map[compkey]compentry
 	oid2literal map[compkey]map[analysis.LiteralType]compentry
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 6ac93fc..fe00d98 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -762,7 +762,7 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 	key := OpKey{Left: coid, Right: coid, Name: oprname}
 	if _, ok := c.db.catalog.Operators[key]; ok {
 		typmod1 := isLength1Type(c, cond.Column)
-		if comp := typeCompatibility(c, ctyp, ftyp, typmod1); comp != nil {
+		if comp := typeCompatibility(c, ctyp, ftyp, typmod1); comp != nil && comp.canValue(ftyp) {
 			cond.Valuer = comp.valuer
 			return 0
 		}
@@ -784,7 +784,7 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 			continue
 		}
 
-		if ce := typeCompatibility(c, typ, ftyp, false); ce != nil {
+		if ce := typeCompatibility(c, typ, ftyp, false); ce != nil && ce.canValue(ftyp) {
 			if ce.valuer == "" {
 				comp = ce
 				break
@@ -855,7 +855,7 @@ func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErr
 				ftyp = analysis.TypeInfo{Kind: analysis.TypeKindString}
 			}
 
-			if comp := typeCompatibility(c, p.R, ftyp, false); comp != nil {
+			if comp := typeCompatibility(c, p.R, ftyp, false); comp != nil && comp.canValue(ftyp) {
 				cond.Valuer = comp.valuer
 				return 0
 			}
@@ -1234,7 +1234,7 @@ func typeCheckFieldRead(c *checker, f *analysis.FieldInfo, strict bool) error {
 		}
 
 		typmod1 := isLength1Type(c, col)
-		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil {
+		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil && comp.canScan(f.Type) {
 			return comp.scanner, 0
 		}
 
@@ -1358,7 +1358,7 @@ func typeCheckFieldWrite(c *checker, f *analysis.FieldInfo) (*FieldWrite, error)
 		}
 
 		typmod1 := isLength1Type(c, col)
-		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil {
+		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil && comp.canValue(f.Type) {
 			return comp.valuer, 0
 		}
 
@@ -1476,7 +1476,7 @@ func typeCheckFieldFilter(c *checker, f *analysis.FieldInfo, strict bool) error
 		}
 
 		typmod1 := isLength1Type(c, col)
-		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil {
+		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil && comp.canValue(f.Type) {
 			return comp.valuer, 0
 		}
 
-- 
2.43.0


From c407ea5716ff1e78d0a751b21277197043aa86e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 38/93] fix: inet[] scanner names of []net.IP and []net.IPNet
 fields

---
 internal/postgres/compatibility.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/compatibility.go b/internal/postgres/compatibility.go
index 87d3c51..2e4301b 100644
--- a/internal/postgres/compatibility.go
+++ b/internal/postgres/compatibility.go
@@ -228,8 +228,8 @@ func init_oid2literal() map[compkey]map[analysis.LiteralType]compentry {
 			analysis.LiteralByteSlice: {},
 		},
 		{oid: oid.InetArr}: {
-			analysis.LiteralIPSlice:    {valuer: "InetArrayFromIPSlice", scanner: "InetArrayFromIPSlice"},
-			analysis.LiteralIPNetSlice: {valuer: "InetArrayFromIPNetSlice", scanner: "InetArrayFromIPNetSlice"},
+			analysis.LiteralIPSlice:    {valuer: "InetArrayFromIPSlice", scanner: "InetArrayToIPSlice"},
+			analysis.LiteralIPNetSlice: {valuer: "InetArrayFromIPNetSlice", scanner: "InetArrayToIPNetSlice"},
 			analysis.LiteralString:     {},
 			analysis.LiteralByteSlice:  {},
 		},
-- 
2.43.0


From dc14337fbb335a99970d3285afeb095a9d312920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 39/93] fix: unquoted zero value literal of the lseg type

---
 internal/postgres/oid/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/postgres/oid/types.go b/internal/postgres/oid/types.go
index 04e00fe..63f1b4a 100644
--- a/internal/postgres/oid/types.go
+++ b/internal/postgres/oid/types.go
@@ -247,7 +247,7 @@ var TypeToZeroValue = map[OID]string{
 	JSONBArr:      `'{}'`,
 	// Line:          `''`,
 	LineArr:        `'{}'`,
-	LSeg:           `[(0,0),(0,0)]`,
+	LSeg:           `'[(0,0),(0,0)]'`,
 	LSegArr:        `'{}'`,
 	MACAddr:        `'00:00:00:00:00:00'`,
 	MACAddrArr:     `'{}'`,
-- 
2.43.0


From 2c0ff190ea28bfa7e0d7b72db8dd451abb1ee1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 40/93] fix: fields of named basic types with columns that need
 a converter

The generated code passed the named type to the converter, which doesn't
compile, or had database/sql scan non-text values into a pointer to a named
string, which it always refuses.
---
 internal/generator/generator.go | 40 +++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index ba3144b..a0755f7 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -364,6 +364,7 @@ func buildQueryInputSourceFields(g *generator, qs *analysis.QueryStruct) {
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 		}
 		fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{fw.Field.Name}}
+		fx = addBasicConversionExpr(fx, fw.Field.Type, fw.Valuer)
 		fx = addConverterCallExpr(g, fx, fw.Valuer)
 		g.inputArgs = append(g.inputArgs, fx)
 	}
@@ -401,6 +402,7 @@ func buildQueryInputFieldConditional(g *generator, cond *postgres.FieldCondition
 	}
 
 	expr := GO.ExprNode(GO.SelectorExpr{X: sx, Sel: GO.Ident{cond.FieldName}})
+	expr = addBasicConversionExpr(expr, cond.FieldType, cond.Valuer)
 	expr = addConverterCallExpr(g, expr, cond.Valuer)
 	g.inputArgs = append(g.inputArgs, expr)
 }
@@ -582,6 +584,14 @@ func buildQueryOutputTargetFields(g *generator, qs *analysis.QueryStruct) {
 
 		fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{fr.Field.Name}}
 		fx = GO.UnaryExpr{Op: GO.UnaryAmp, X: fx}
+		if typ := fr.Field.Type; isNamedBasicType(typ) &&
+			fr.Scanner != "JSON" && fr.Scanner != "XML" && (len(fr.Scanner) > 0 || needsStringPointer(fr)) {
+			// convert to pointer to the basic type
+			fx = GO.CallExpr{
+				Fun:  GO.ParenExpr{GO.PointerIndirectionExpr{GO.Ident{string(typ.GenericLiteral())}}},
+				Args: GO.ArgsList{List: fx},
+			}
+		}
 		fx = addConverterCallExpr(g, fx, fr.Scanner)
 		g.outputArgs = append(g.outputArgs, fx)
 	}
@@ -638,6 +648,36 @@ func buildQueryLimitOffsetFallback(g *generator, qs *analysis.QueryStruct) {
 	}
 }
 
+// isNamedBasicType reports whether or not typ is a named type whose
+// underlying type is a basic type.
+func isNamedBasicType(typ analysis.TypeInfo) bool {
+	return typ.Kind.IsBasic() && len(typ.Name) > 0
+}
+
+// needsStringPointer reports whether or not the given read's column produces
+// values that database/sql can scan into a *string but not into a pointer to
+// a named string type.
+func needsStringPointer(fr *postgres.FieldRead) bool {
+	if fr.Field.Type.Kind != analysis.TypeKindString || fr.Field.Type.ImplementsScanner() {
+		return false
+	}
+	switch fr.Column.Type.OID {
+	case oid.Bool, oid.Int2, oid.Int4, oid.Int8, oid.Float4, oid.Float8,
+		oid.Date, oid.Time, oid.Timetz, oid.Timestamp, oid.Timestamptz:
+		return true
+	}
+	return false
+}
+
+// addBasicConversionExpr converts x, which is to be passed to the given
+// converter, from a named type to its underlying basic type.
+func addBasicConversionExpr(x GO.ExprNode, typ analysis.TypeInfo, converter string) GO.ExprNode {
+	if len(converter) > 0 && converter != "JSON" && converter != "XML" && isNamedBasicType(typ) {
+		return GO.CallExpr{Fun: GO.Ident{string(typ.GenericLiteral())}, Args: GO.ArgsList{List: x}}
+	}
+	return x
+}
+
 // addConverterCallExpr
 func addConverterCallExpr(g *generator, x GO.ExprNode, converter string) GO.ExprNode {
 	if len(converter) > 0 {
-- 
2.43.0


From efb582b15fb669a1d11192e796ddb11953eaac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 41/93] fix: apply the converter to primary key arguments of
 updates

---
 internal/generator/generator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index a0755f7..9ad6bcd 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -427,6 +427,8 @@ func buildQueryInputPKeyFields(g *generator, qs *analysis.QueryStruct) {
 				fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			}
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{fw.Field.Name}}
+			fx = addBasicConversionExpr(fx, fw.Field.Type, fw.Valuer)
+			fx = addConverterCallExpr(g, fx, fw.Valuer)
 			g.inputArgs = append(g.inputArgs, fx)
 		}
 	}
-- 
2.43.0


From 42decf8901f4fda2b5af5d15de51e3d63094b9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 42/93] fix: NULLIF of money columns compares money, not
 integer

---
 internal/generator/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 9ad6bcd..8c9623e 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -766,7 +766,7 @@ func addNULLIFCallExpr(x SQL.ValueExpr, c *postgres.Column) SQL.ValueExpr {
 		// to that of the literal, i.e. integer or text, which either can't
 		// represent the column's values, or compares them textually.
 		switch c.Type.OID {
-		case oid.Int8, oid.Float4, oid.Numeric, oid.Bytea,
+		case oid.Int8, oid.Float4, oid.Numeric, oid.Money, oid.Bytea,
 			oid.Date, oid.Time, oid.Timetz, oid.Timestamp, oid.Timestamptz:
 			nullif.Expr = SQL.CastExpr{Expr: SQL.Literal{lit}, Type: c.Type.NameFmt}
 		}
-- 
2.43.0


From 828cf0997961d7ce0e328d4035258b9f1ef41c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 43/93] fix: *[]byte fields of json and xml columns hold the
 document, like []byte

They were marshaled as JSON, i.e. base64 encoded, or XML, which fails.
---
 internal/postgres/postgres.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index fe00d98..40b0e33 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1193,7 +1193,7 @@ func typeCheckFieldRead(c *checker, f *analysis.FieldInfo, strict bool) error {
 				}
 
 				// []byte type, accept as is
-				if f.Type.IsSliceKind(analysis.TypeKindByte) {
+				if isByteSlice(f.Type) {
 					return "", 0
 				}
 
@@ -1219,7 +1219,7 @@ func typeCheckFieldRead(c *checker, f *analysis.FieldInfo, strict bool) error {
 				}
 
 				// []byte type, accept as is
-				if f.Type.IsSliceKind(analysis.TypeKindByte) {
+				if isByteSlice(f.Type) {
 					return "", 0
 				}
 
@@ -1324,7 +1324,7 @@ func typeCheckFieldWrite(c *checker, f *analysis.FieldInfo) (*FieldWrite, error)
 				}
 
 				// []byte type, accept as is
-				if f.Type.IsSliceKind(analysis.TypeKindByte) {
+				if isByteSlice(f.Type) {
 					return "", 0
 				}
 
@@ -1343,7 +1343,7 @@ func typeCheckFieldWrite(c *checker, f *analysis.FieldInfo) (*FieldWrite, error)
 				}
 
 				// []byte type, accept as is
-				if f.Type.IsSliceKind(analysis.TypeKindByte) {
+				if isByteSlice(f.Type) {
 					return "", 0
 				}
 
@@ -1441,7 +1441,7 @@ func typeCheckFieldFilter(c *checker, f *analysis.FieldInfo, strict bool) error
 				}
 
 				// []byte type? accept as is
-				if f.Type.IsSliceKind(analysis.TypeKindByte) {
+				if isByteSlice(f.Type) {
 					return "", 0
 				}
 
@@ -1461,7 +1461,7 @@ func typeCheckFieldFilter(c *checker, f *analysis.FieldInfo, strict bool) error
 				}
 
 				// []byte type, accept as is
-				if f.Type.IsSliceKind(analysis.TypeKindByte) {
+				if isByteSlice(f.Type) {
 					return "", 0
 				}
 
@@ -2015,6 +2015,14 @@ func skipFieldRead(c *checker, fr *FieldRead) bool {
 	return fr.Field.IsWriteOnly() && (c.force == nil || !c.force.Contains(fr.ColIdent))
 }
 
+// isByteSlice reports whether or not the given type is a []byte or a *[]byte.
+func isByteSlice(typ analysis.TypeInfo) bool {
+	if typ.Kind == analysis.TypeKindPtr {
+		return typ.Elem.IsSliceKind(analysis.TypeKindByte)
+	}
+	return typ.IsSliceKind(analysis.TypeKindByte)
+}
+
 // typeCompatibility
 func typeCompatibility(c *checker, ctyp *Type, ftyp analysis.TypeInfo, typmod1 bool) *compentry {
 	lit := ftyp.GenericLiteral()
-- 
2.43.0


From 99fe136cdbac3b2862d6d1369463adcd689880f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 44/93] fix: read bit columns into fields of named bool types

---
 internal/generator/generator.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 8c9623e..003209c 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -587,7 +587,7 @@ func buildQueryOutputTargetFields(g *generator, qs *analysis.QueryStruct) {
 		fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{fr.Field.Name}}
 		fx = GO.UnaryExpr{Op: GO.UnaryAmp, X: fx}
 		if typ := fr.Field.Type; isNamedBasicType(typ) &&
-			fr.Scanner != "JSON" && fr.Scanner != "XML" && (len(fr.Scanner) > 0 || needsStringPointer(fr)) {
+			fr.Scanner != "JSON" && fr.Scanner != "XML" && (len(fr.Scanner) > 0 || needsBasicPointer(fr)) {
 			// convert to pointer to the basic type
 			fx = GO.CallExpr{
 				Fun:  GO.ParenExpr{GO.PointerIndirectionExpr{GO.Ident{string(typ.GenericLiteral())}}},
@@ -656,17 +656,22 @@ func isNamedBasicType(typ analysis.TypeInfo) bool {
 	return typ.Kind.IsBasic() && len(typ.Name) > 0
 }
 
-// needsStringPointer reports whether or not the given read's column produces
-// values that database/sql can scan into a *string but not into a pointer to
-// a named string type.
-func needsStringPointer(fr *postgres.FieldRead) bool {
-	if fr.Field.Type.Kind != analysis.TypeKindString || fr.Field.Type.ImplementsScanner() {
+// needsBasicPointer reports whether or not the given read's column produces
+// values that database/sql can scan into a pointer to the field's basic type
+// but not into a pointer to the named type.
+func needsBasicPointer(fr *postgres.FieldRead) bool {
+	if fr.Field.Type.ImplementsScanner() {
 		return false
 	}
-	switch fr.Column.Type.OID {
-	case oid.Bool, oid.Int2, oid.Int4, oid.Int8, oid.Float4, oid.Float8,
-		oid.Date, oid.Time, oid.Timetz, oid.Timestamp, oid.Timestamptz:
-		return true
+	switch fr.Field.Type.Kind {
+	case analysis.TypeKindBool:
+		return fr.Column.Type.OID != oid.Bool
+	case analysis.TypeKindString:
+		switch fr.Column.Type.OID {
+		case oid.Bool, oid.Int2, oid.Int4, oid.Int8, oid.Float4, oid.Float8,
+			oid.Date, oid.Time, oid.Timetz, oid.Timestamp, oid.Timestamptz:
+			return true
+		}
 	}
 	return false
 }
-- 
2.43.0


From 825a3c8c790aef00ceda6f2c2f16ea6fb5922697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 45/93] fix: keep the existing output file when generating or
 writing the new one fails

The file was truncated before the code was formatted and written, and
removed if either failed.
---
 internal/command/command.go | 54 +++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/internal/command/command.go b/internal/command/command.go
index cc94378..befca8d 100644
--- a/internal/command/command.go
+++ b/internal/command/command.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 	"go/format"
-	"io"
 	"os"
 	"path/filepath"
 	"strings"
@@ -86,7 +85,13 @@ func (cmd *Command) Run() error {
 			}
 
 			// 4. generate
-			if err := generator.Write(&out.buf, pkg.Name, out.targInfos, cmd.Config); err != nil {
+			var buf bytes.Buffer
+			if err := generator.Write(&buf, pkg.Name, out.targInfos, cmd.Config); err != nil {
+				return err
+			}
+
+			// make it look pretty
+			if out.code, err = format.Source(buf.Bytes()); err != nil {
 				return err
 			}
 
@@ -125,31 +130,52 @@ type outFile struct {
 	// the type checked targets
 	targInfos []*postgres.TargetInfo
 	// the generated code
-	buf bytes.Buffer
+	code []byte
 }
 
+// writeOutFile writes the generated code to the output file. An already existing
+// output file is replaced only after the whole of the new code has been written,
+// if anything fails then the existing file is left as it was.
 func (cmd *Command) writeOutFile(out *outFile) (err error) {
-	f, err := os.Create(out.path)
+	path, perm := out.path, os.FileMode(0)
+	if real, err := filepath.EvalSymlinks(path); err == nil {
+		path = real
+	}
+	if fi, err := os.Stat(path); err == nil {
+		if !fi.Mode().IsRegular() {
+			return fmt.Errorf("output file %q is not a regular file", out.path)
+		}
+		perm = fi.Mode().Perm()
+	} else if !os.IsNotExist(err) {
+		return err
+	}
+
+	dir, base := filepath.Split(path)
+	temp := filepath.Join(dir, fmt.Sprintf(".%s.%d.tmp", base, os.Getpid()))
+	f, err := os.OpenFile(temp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
 	if err != nil {
 		return err
 	}
 	defer func() {
-		f.Close()
 		if err != nil {
-			os.Remove(out.path)
+			f.Close()
+			os.Remove(temp)
 		}
 	}()
 
-	// make it look pretty
-	bs, err := format.Source(out.buf.Bytes())
-	if err != nil {
+	if _, err := f.Write(out.code); err != nil {
 		return err
 	}
-
-	buf := bytes.NewBuffer(bs)
-	if _, err := io.Copy(f, buf); err != nil {
+	if perm != 0 {
+		if err := f.Chmod(perm); err != nil {
+			return err
+		}
+	}
+	if err := f.Sync(); err != nil {
 		return err
 	}
-
-	return f.Sync()
+	if err := f.Close(); err != nil {
+		return err
+	}
+	return os.Rename(temp, path)
 }
-- 
2.43.0


From 27d163d3a29d8b98c3160f59efc0b074d4507a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 46/93] fix: reject updates without the complete primary key
 and queries with no columns to read or write

---
 internal/postgres/errors.go   | 22 +++++++++++++
 internal/postgres/postgres.go | 59 ++++++++++++++++++++++++++++++++---
 2 files changed, 77 insertions(+), 4 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index adf1e1b..4751d54 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -39,6 +39,9 @@ const (
 	errRelationConstraintScan    // TODO
 	errRelationIndexGet          // TODO
 	errRelationIndexScan         // TODO
+	errRelationPrimaryKey
+	errRelationFieldsRead
+	errRelationFieldsWrite
 
 	// column errors
 	errColumnUnknown
@@ -408,6 +411,25 @@ Relation error templates
     {{- template "external_error_issue" . }}
 {{ end }}
 
+{{ define "` + errRelationPrimaryKey.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Missing primary key fields."}}
+    The fields of "{{R .Field.Definition}}" do not make up a primary key of the relation "{{R .Rel.Name}}".
+    - an {{Wb "UPDATE"}} without a "Where" struct, a filter, or the {{W "gosql.All"}} directive, needs the {{wu "complete primary key"}} to match the rows.
+    {{- template "connection_info" . -}}
+{{ end }}
+
+{{ define "` + errRelationFieldsRead.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "No columns to read."}}
+    None of the fields of "{{R .Field.Definition}}" can be read from a column of the relation "{{R .Rel.Name}}".
+    {{- template "connection_info" . -}}
+{{ end }}
+
+{{ define "` + errRelationFieldsWrite.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "No columns to write."}}
+    None of the fields of "{{R .Field.Definition}}" can be written to a column of the relation "{{R .Rel.Name}}".
+    {{- template "connection_info" . -}}
+{{ end }}
+
 --------------------------------------------------------------------------------
 Column error templates
 --------------------------------------------------------------------------------
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 40b0e33..88f0ac4 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -261,6 +261,7 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 		typeCheckQueryReturnDirective,
 		typeCheckQueryResultField,
 		typeCheckQueryRelField,
+		typeCheckQueryFieldsUsed,
 
 		typeCheckQueryWhereStruct,
 		typeCheckQueryOnConflictStruct,
@@ -285,10 +286,36 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 	// if this is a read query (select, or I,U,D with returning) the columns do
 	// not have to be unique.
 
-	// TODO(mkopriva): if this is an UPDATE but none of the columns associated
-	// with the available fields constitute a complete primary key of the table,
-	// an error should be returned as then there's no way to properly match the
-	// data instances with specific rows in the table.
+	return typeCheckQueryUpdatePKeys(c, qs)
+}
+
+// typeCheckQueryUpdatePKeys checks that an UPDATE that matches the rows by their
+// primary key has what is needed to do so.
+//
+// CHECKLIST:
+//
+//	✅ The columns associated with the fields of the target data type
+//	   MUST include the complete primary key of the TARGET relation.
+func typeCheckQueryUpdatePKeys(c *checker, qs *analysis.QueryStruct) error {
+	if !qs.IsUpdateWithPKeys() {
+		return nil
+	}
+
+	ok := len(c.res.PKeys) > 0
+	for _, col := range c.rel.Columns {
+		if !col.IsPrimary {
+			continue
+		}
+
+		found := false
+		for _, fw := range c.res.PKeys {
+			found = found || fw.Column == col
+		}
+		ok = ok && found
+	}
+	if !ok {
+		return c.dbError(dbError{Code: errRelationPrimaryKey, Rel: relInfo{Relation: c.rel}}, qs.Rel)
+	}
 	return nil
 }
 
@@ -474,6 +501,30 @@ func typeCheckQueryRelField(c *checker, qs *analysis.QueryStruct) error {
 	return nil
 }
 
+// typeCheckQueryFieldsUsed checks that the query has something to read or write.
+//
+// CHECKLIST:
+//
+//	✅ A query that reads rows MUST read at least one column.
+//	✅ An INSERT or UPDATE MUST write at least one column.
+func typeCheckQueryFieldsUsed(c *checker, qs *analysis.QueryStruct) error {
+	if qs.Rel == nil || qs.Rel.IsDirective && qs.Result == nil {
+		return nil
+	}
+
+	var ptr analysis.FieldPtr = qs.Rel
+	if qs.Result != nil {
+		ptr = qs.Result
+	}
+	if reads := qs.Kind == analysis.QueryKindSelect || qs.Return != nil || qs.Result != nil; reads && len(c.res.Reads) == 0 {
+		return c.dbError(dbError{Code: errRelationFieldsRead, Rel: relInfo{Relation: c.rel}}, ptr)
+	}
+	if qs.IsInsertOrUpdate() && len(c.res.Writes) == 0 {
+		return c.dbError(dbError{Code: errRelationFieldsWrite, Rel: relInfo{Relation: c.rel}}, qs.Rel)
+	}
+	return nil
+}
+
 // typeCheckQueryJoinStruct ...
 func typeCheckQueryJoinStruct(c *checker, qs *analysis.QueryStruct) error {
 	if qs.Join == nil {
-- 
2.43.0


From e66963f7bf1afb23fed28dcf1574683ea68f9ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 47/93] fix: recognize interface implementations by promoted
 methods, interface types and pointer error handlers

---
 internal/analysis/analysis.go    |  12 ++++
 internal/typesutil/predicates.go | 100 +++++++++++++++----------------
 2 files changed, 59 insertions(+), 53 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index e34b9b9..d4aa748 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2160,6 +2160,12 @@ func isBoolType(typ types.Type) bool {
 
 // isErrorHandler reports whether or not the given type implements the gosql.ErrorHandler interface.
 func isErrorHandler(typ types.Type) bool {
+	if ptr, ok := typ.(*types.Pointer); ok {
+		typ = ptr.Elem()
+		if types.IsInterface(typ) {
+			return false
+		}
+	}
 	named, ok := typ.(*types.Named)
 	if !ok {
 		return false
@@ -2169,6 +2175,12 @@ func isErrorHandler(typ types.Type) bool {
 
 // isErrorInfoHandler reports whether or not the given type implements the gosql.ErrorInfoHandler interface.
 func isErrorInfoHandler(typ types.Type) bool {
+	if ptr, ok := typ.(*types.Pointer); ok {
+		typ = ptr.Elem()
+		if types.IsInterface(typ) {
+			return false
+		}
+	}
 	named, ok := typ.(*types.Named)
 	if !ok {
 		return false
diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index d23c295..e26ba38 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -260,26 +260,14 @@ func IsDirective(ident string, typ types.Type) bool {
 // ImplementsAfterScanner reports whether or not the given named type
 // implements the "gosql.AfterScanner" interface.
 func ImplementsAfterScanner(named *types.Named) bool {
-	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "AfterScan" {
-			sig = m.Type().(*types.Signature)
-			break
-		}
-	}
+	sig := methodSignature(named, "AfterScan")
 	return sig != nil && sig.Params().Len() == 0 && sig.Results().Len() == 0
 }
 
 // ImplementsErrorHandler reports whether or not the given named type
 // implements the "gosql.ErrorHandler" interface.
 func ImplementsErrorHandler(named *types.Named) bool {
-	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "HandleError" {
-			sig = m.Type().(*types.Signature)
-			break
-		}
-	}
+	sig := methodSignature(named, "HandleError")
 	if sig == nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
 		return false
 	}
@@ -290,13 +278,7 @@ func ImplementsErrorHandler(named *types.Named) bool {
 // ImplementsErrorInfoHandler reports whether or not the given named type
 // implements the "gosql.ErrorInfoHandler" interface.
 func ImplementsErrorInfoHandler(named *types.Named) bool {
-	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "HandleErrorInfo" {
-			sig = m.Type().(*types.Signature)
-			break
-		}
-	}
+	sig := methodSignature(named, "HandleErrorInfo")
 	if sig == nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
 		return false
 	}
@@ -321,10 +303,7 @@ func ImplementsErrorInfoHandler(named *types.Named) bool {
 
 // ImplementsGosqlConn reports whether or not the given named type implements the "gosql.Conn" interface.
 func ImplementsGosqlConn(named *types.Named) bool {
-	mm := Methoder(named)
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		mm = iface
-	}
+	mm := methodsOf(named)
 
 	var hasExec, hasQuery, hasQueryRow bool
 	var hasExecContext, hasQueryContext, hasQueryRowContext bool
@@ -425,10 +404,7 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 		return false
 	}
 
-	mm := Methoder(named)
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		mm = iface
-	}
+	mm := methodsOf(named)
 
 	var hasInit, hasInitV2, hasCol, hasAnd, hasOr bool
 
@@ -498,10 +474,7 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 // interface type, ImplementsScanner will report whether or not that interface
 // type declares, or embeds, the "Scan(interface{}) error" method.
 func ImplementsScanner(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsScanner(iface)
-	}
-	return IsScanner(named)
+	return IsScanner(methodsOf(named))
 }
 
 // IsScanner reports whether or not the given Methoder type declares,
@@ -529,10 +502,7 @@ func IsScanner(mm Methoder) bool {
 // an interface type, ImplementsValuer will report whether or not that interface
 // type declares, or embeds, the "Value() (driver.Value, error)" method.
 func ImplementsValuer(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsValuer(iface)
-	}
-	return IsValuer(named)
+	return IsValuer(methodsOf(named))
 }
 
 // IsValuer reports whether or not the given Methoder type declares,
@@ -560,10 +530,7 @@ func IsValuer(mm Methoder) bool {
 // is an interface type, ImplementsJSONMarshaler will report whether or not that
 // interface type declares, or embeds, the "MarshalJSON() ([]byte, error)" method.
 func ImplementsJSONMarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsJSONMarshaler(iface)
-	}
-	return IsJSONMarshaler(named)
+	return IsJSONMarshaler(methodsOf(named))
 }
 
 // IsJSONMarshaler reports whether or not the given Methoder type declares,
@@ -591,10 +558,7 @@ func IsJSONMarshaler(mm Methoder) bool {
 // is an interface type, ImplementsJSONUnmarshaler will report whether or not that
 // interface type declares, or embeds, the "UnmarshalJSON([]byte) (error)" method.
 func ImplementsJSONUnmarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsJSONUnmarshaler(iface)
-	}
-	return IsJSONUnmarshaler(named)
+	return IsJSONUnmarshaler(methodsOf(named))
 }
 
 // IsJSONUnmarshaler reports whether or not the given Methoder type declares,
@@ -622,10 +586,7 @@ func IsJSONUnmarshaler(mm Methoder) bool {
 // type, ImplementsXMLMarshaler will report whether or not that interface type declares,
 // or embeds, the "MarshalXML(*xml.Encoder, xml.StartElement) (error)" method.
 func ImplementsXMLMarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsXMLMarshaler(iface)
-	}
-	return IsXMLMarshaler(named)
+	return IsXMLMarshaler(methodsOf(named))
 }
 
 // IsXMLMarshaler reports whether or not the given Methoder type declares,
@@ -654,10 +615,7 @@ func IsXMLMarshaler(mm Methoder) bool {
 // type, ImplementsXMLUnmarshaler will report whether or not that interface type declares,
 // or embeds, the "UnmarshalXML(*xml.Decoder, xml.StartElement) (error)" method.
 func ImplementsXMLUnmarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsXMLUnmarshaler(iface)
-	}
-	return IsXMLUnmarshaler(named)
+	return IsXMLUnmarshaler(methodsOf(named))
 }
 
 // IsXMLUnmarshaler reports whether or not the given Methoder type declares,
@@ -688,6 +646,42 @@ type Methoder interface {
 	Method(i int) *types.Func
 }
 
+// methodSet is a Methoder of all the methods of an addressable value of a named
+// type, including those promoted from embedded fields.
+type methodSet []*types.Func
+
+func (ms methodSet) NumMethods() int          { return len(ms) }
+func (ms methodSet) Method(i int) *types.Func { return ms[i] }
+
+// methodsOf returns the Methoder for the given named type. If the named type's underlying
+// type is an interface then that interface, which includes embedded methods, is returned.
+func methodsOf(named *types.Named) Methoder {
+	if iface, ok := named.Underlying().(*types.Interface); ok {
+		return iface
+	}
+
+	var ms methodSet
+	set := types.NewMethodSet(types.NewPointer(named))
+	for i := 0; i < set.Len(); i++ {
+		if fn, ok := set.At(i).Obj().(*types.Func); ok {
+			ms = append(ms, fn)
+		}
+	}
+	return ms
+}
+
+// methodSignature returns the signature of the named type's method
+// with the given name, or nil if there is no such method.
+func methodSignature(named *types.Named, name string) *types.Signature {
+	mm := methodsOf(named)
+	for i := 0; i < mm.NumMethods(); i++ {
+		if m := mm.Method(i); m.Name() == name {
+			return m.Type().(*types.Signature)
+		}
+	}
+	return nil
+}
+
 // isbyteslice reports whether or not the given type is a []byte type.
 func isbyteslice(t types.Type) bool {
 	if s, ok := t.(*types.Slice); ok {
-- 
2.43.0


From 49621735013ae14e28265b0d91b6416a2f7530bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 48/93] fix: analyze type aliases as the types they denote and
 do not panic on the error type

---
 internal/analysis/analysis.go    | 46 ++++++++--------
 internal/typesutil/predicates.go | 93 ++++++++++++++++----------------
 internal/typesutil/utils.go      |  8 +--
 3 files changed, 75 insertions(+), 72 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index d4aa748..5fc1e48 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -436,7 +436,7 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 		}
 	}()
 
-	ftyp := field.Type()
+	ftyp := types.Unalias(field.Type())
 	cacheKey := ftyp.String()
 	named, ok := ftyp.(*types.Named)
 	if ok {
@@ -477,14 +477,14 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 			rt.IsArray = true
 			rt.ArrayLen = array.Len()
 		}
-		if ptr, ok := ftyp.(*types.Pointer); ok { // allows *T
+		if ptr, ok := types.Unalias(ftyp).(*types.Pointer); ok { // allows *T
 			ftyp = ptr.Elem()
 			rt.IsPointer = true
 		}
 
 		// Get the name of the base type, if applicable.
 		if rt.IsSlice || rt.IsArray || rt.IsPointer {
-			if named, ok = ftyp.(*types.Named); !ok {
+			if named, ok = types.Unalias(ftyp).(*types.Named); !ok {
 				// Fail if the type is a slice, an array, or a pointer
 				// while its base type remains unnamed.
 				return a.error(errBadRelType, field, "", "", "", "")
@@ -494,6 +494,9 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 
 	if named != nil {
 		pkg := named.Obj().Pkg()
+		if pkg == nil {
+			return a.error(errBadRelType, field, "", "", "", "")
+		}
 		rt.Base.Name = named.Obj().Name()
 		rt.Base.PkgPath = pkg.Path()
 		rt.Base.PkgName = pkg.Name()
@@ -645,14 +648,15 @@ stackloop:
 // pointer types it will analyze the element type of those types. The second return
 // value is the types.Type representation of the base element type of the given type.
 func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type) {
-	base = tt
+	base = types.Unalias(tt)
 
 	if named, ok := base.(*types.Named); ok {
-		pkg := named.Obj().Pkg()
 		typ.Name = named.Obj().Name()
-		typ.PkgPath = pkg.Path()
-		typ.PkgName = pkg.Name()
-		typ.PkgLocal = pkg.Name()
+		if pkg := named.Obj().Pkg(); pkg != nil {
+			typ.PkgPath = pkg.Path()
+			typ.PkgName = pkg.Name()
+			typ.PkgLocal = pkg.Name()
+		}
 		typ.IsImported = isImportedType(a, named)
 		typ.IsScanner = typesutil.ImplementsScanner(named)
 		typ.IsValuer = typesutil.ImplementsValuer(named)
@@ -726,13 +730,13 @@ func analyzeIteratorFunction(a *analysis, rt *RelType, sig *types.Signature) (ou
 	}
 
 	typ := sig.Params().At(0).Type()
-	if ptr, ok := typ.(*types.Pointer); ok { // allows *T
+	if ptr, ok := types.Unalias(typ).(*types.Pointer); ok { // allows *T
 		typ = ptr.Elem()
 		rt.IsPointer = true
 	}
 
 	// Make sure that the argument type is a named struct type.
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return nil, false
 	} else if _, ok := named.Underlying().(*types.Struct); !ok {
@@ -1778,7 +1782,7 @@ func addToRelSpace(a *analysis, id RelIdent) (ecode errorCode, errval string) {
 
 // analyzeTypeKind returns the TypeKind for the given types.Type.
 func analyzeTypeKind(typ types.Type) TypeKind {
-	switch x := typ.(type) {
+	switch x := types.Unalias(typ).(type) {
 	case *types.Basic:
 		return typesBasicKindToTypeKind[x.Kind()]
 	case *types.Array:
@@ -2124,7 +2128,7 @@ func (cl *ColIdentList) Contains(cid ColIdent) bool {
 // isImportedType reports whether or not the given type is imported based on
 // on the package in which the target of the analysis is declared.
 func isImportedType(a *analysis, named *types.Named) bool {
-	return named != nil && named.Obj().Pkg().Path() != a.pkgPath
+	return named != nil && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() != a.pkgPath
 }
 
 // isAccessible reports whether or not the given value is accessible from
@@ -2141,7 +2145,7 @@ type exportable interface {
 
 // isIntegerType reports whether or not the given type is one of the basic (un)signed integer types.
 func isIntegerType(typ types.Type) bool {
-	basic, ok := typ.(*types.Basic)
+	basic, ok := types.Unalias(typ).(*types.Basic)
 	if !ok {
 		return false
 	}
@@ -2151,7 +2155,7 @@ func isIntegerType(typ types.Type) bool {
 
 // isBoolType reports whether or not the given type is a boolean.
 func isBoolType(typ types.Type) bool {
-	basic, ok := typ.(*types.Basic)
+	basic, ok := types.Unalias(typ).(*types.Basic)
 	if !ok {
 		return false
 	}
@@ -2160,13 +2164,13 @@ func isBoolType(typ types.Type) bool {
 
 // isErrorHandler reports whether or not the given type implements the gosql.ErrorHandler interface.
 func isErrorHandler(typ types.Type) bool {
-	if ptr, ok := typ.(*types.Pointer); ok {
+	if ptr, ok := types.Unalias(typ).(*types.Pointer); ok {
 		typ = ptr.Elem()
 		if types.IsInterface(typ) {
 			return false
 		}
 	}
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -2175,13 +2179,13 @@ func isErrorHandler(typ types.Type) bool {
 
 // isErrorInfoHandler reports whether or not the given type implements the gosql.ErrorInfoHandler interface.
 func isErrorInfoHandler(typ types.Type) bool {
-	if ptr, ok := typ.(*types.Pointer); ok {
+	if ptr, ok := types.Unalias(typ).(*types.Pointer); ok {
 		typ = ptr.Elem()
 		if types.IsInterface(typ) {
 			return false
 		}
 	}
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -2190,7 +2194,7 @@ func isErrorInfoHandler(typ types.Type) bool {
 
 // isFilterType reports whether or not the given type is the gosql.Filter type.
 func isFilterType(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -2199,8 +2203,8 @@ func isFilterType(typ types.Type) bool {
 		return false
 	}
 
-	path := named.Obj().Pkg().Path()
-	return strings.HasSuffix(path, "github.com/frk/gosql")
+	pkg := named.Obj().Pkg()
+	return pkg != nil && strings.HasSuffix(pkg.Path(), "github.com/frk/gosql")
 }
 
 // isColIdent reports whether or not the given value is a valid column identifier.
diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index e26ba38..9e1cf1c 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -7,7 +7,7 @@ import (
 
 // IsString reports whether or not the given type is the builtin "string" type.
 func IsString(typ types.Type) bool {
-	basic, ok := typ.(*types.Basic)
+	basic, ok := types.Unalias(typ).(*types.Basic)
 	if !ok {
 		return false
 	}
@@ -16,14 +16,14 @@ func IsString(typ types.Type) bool {
 
 // IsStringMap reports whether or not the given type is the "map[string]string" type.
 func IsStringMap(typ types.Type) bool {
-	m, ok := typ.(*types.Map)
+	m, ok := types.Unalias(typ).(*types.Map)
 	if !ok {
 		return false
 	}
-	if k, ok := m.Key().(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
+	if k, ok := types.Unalias(m.Key()).(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
 		return false
 	}
-	if e, ok := m.Elem().(*types.Basic); !ok || e.Kind() != types.String || e.Name() != "string" {
+	if e, ok := types.Unalias(m.Elem()).(*types.Basic); !ok || e.Kind() != types.String || e.Name() != "string" {
 		return false
 	}
 	return true
@@ -31,11 +31,11 @@ func IsStringMap(typ types.Type) bool {
 
 // IsStringColumnMap reports whether or not the given type is the "map[string]filter.Column" type.
 func IsStringColumnMap(typ types.Type) bool {
-	m, ok := typ.(*types.Map)
+	m, ok := types.Unalias(typ).(*types.Map)
 	if !ok {
 		return false
 	}
-	if k, ok := m.Key().(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
+	if k, ok := types.Unalias(m.Key()).(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
 		return false
 	}
 	if !IsFilterColumn(m.Elem()) {
@@ -46,7 +46,7 @@ func IsStringColumnMap(typ types.Type) bool {
 
 // IsNiladicFunc reports whether or not the given type is the "func()" type.
 func IsNiladicFunc(typ types.Type) bool {
-	sig, ok := typ.(*types.Signature)
+	sig, ok := types.Unalias(typ).(*types.Signature)
 	if !ok {
 		return false
 	}
@@ -55,7 +55,7 @@ func IsNiladicFunc(typ types.Type) bool {
 
 // IsError reports whether or not the given type is the "error" type.
 func IsError(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -66,17 +66,7 @@ func IsError(typ types.Type) bool {
 
 // IsEmptyInterface reports whether or not the given type is the "interface{}" type.
 func IsEmptyInterface(typ types.Type) bool {
-	// handle builtin "any" alias
-	if alias, ok := typ.(*types.Alias); ok {
-		pkg := alias.Obj().Pkg()
-		name := alias.Obj().Name()
-		if name != "any" || pkg != nil {
-			return false
-		}
-		typ = alias.Underlying()
-	}
-
-	iface, ok := typ.(*types.Interface)
+	iface, ok := types.Unalias(typ).(*types.Interface)
 	if !ok {
 		return false
 	}
@@ -85,7 +75,7 @@ func IsEmptyInterface(typ types.Type) bool {
 
 // IsEmptyInterfaceSlice reports whether or not the given type is the "[]interface{}" type.
 func IsEmptyInterfaceSlice(typ types.Type) bool {
-	if s, ok := typ.(*types.Slice); ok {
+	if s, ok := types.Unalias(typ).(*types.Slice); ok {
 		return IsEmptyInterface(s.Elem())
 	}
 	return false
@@ -93,7 +83,7 @@ func IsEmptyInterfaceSlice(typ types.Type) bool {
 
 // IsContext reports whether or not the given type is the standard "context.Context" type.
 func IsContext(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -111,7 +101,7 @@ func IsContext(typ types.Type) bool {
 // IsTime returns true also for types that embed "time.Time" directly, this
 // is to provide support for custom timestamp types.
 func IsTime(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -128,7 +118,7 @@ func IsTime(typ types.Type) bool {
 	if S, ok := named.Underlying().(*types.Struct); ok {
 		for i := 0; i < S.NumFields(); i++ {
 			f := S.Field(i)
-			named, ok := f.Type().(*types.Named)
+			named, ok := types.Unalias(f.Type()).(*types.Named)
 			if ok && f.Anonymous() {
 				typeName := named.Obj()
 				if pkg := typeName.Pkg(); pkg != nil {
@@ -146,7 +136,7 @@ func IsTime(typ types.Type) bool {
 
 // IsSqlResult reports whether or not the given type is the standard "sql.Result" type.
 func IsSqlResult(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -162,11 +152,11 @@ func IsSqlResult(typ types.Type) bool {
 
 // IsSqlRowsPtr reports whether or not the given type is the standard "*sql.Rows" type.
 func IsSqlRowsPtr(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -182,11 +172,11 @@ func IsSqlRowsPtr(typ types.Type) bool {
 
 // IsSqlRowPtr reports whether or not the given type is the standard "*sql.Row" type.
 func IsSqlRowPtr(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -202,7 +192,7 @@ func IsSqlRowPtr(typ types.Type) bool {
 
 // IsSqlDriverValue reports whether or not the given type is the "database/sql/driver.Value" type.
 func IsSqlDriverValue(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -218,13 +208,13 @@ func IsSqlDriverValue(typ types.Type) bool {
 
 // IsFilterColumn reports whether or not the given type is the "github.com/frk/gosql/filter.Column" type.
 func IsFilterColumn(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 
 	if name != "Column" {
 		return false
@@ -238,7 +228,7 @@ func IsFilterColumn(typ types.Type) bool {
 
 // IsDirective reports whether or not the given type is a "github.com/frk/gosql" directive type.
 func IsDirective(ident string, typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -248,7 +238,7 @@ func IsDirective(ident string, typ types.Type) bool {
 	}
 
 	// Compare the suffix only to allow for vendor imports.
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 	if !strings.HasSuffix(path, "github.com/frk/gosql") {
 		return false
 	}
@@ -288,16 +278,16 @@ func ImplementsErrorInfoHandler(named *types.Named) bool {
 
 	// check that the method's argument is of type *gosql.ErrorInfo
 	argtyp := sig.Params().At(0).Type()
-	argptr, ok := argtyp.(*types.Pointer)
+	argptr, ok := types.Unalias(argtyp).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	argnamed, ok := argptr.Elem().(*types.Named)
+	argnamed, ok := types.Unalias(argptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
 	name := argnamed.Obj().Name()
-	path := argnamed.Obj().Pkg().Path()
+	path := pkgPath(argnamed)
 	return strings.HasSuffix(path, "github.com/frk/gosql") && name == "ErrorInfo"
 }
 
@@ -399,7 +389,7 @@ func ImplementsGosqlConn(named *types.Named) bool {
 // ImplementsGosqlFilterConstructor reports whether or not the given named
 // type implements the "gosql.FilterConstructor" interface.
 func ImplementsGosqlFilterConstructor(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -682,10 +672,19 @@ func methodSignature(named *types.Named, name string) *types.Signature {
 	return nil
 }
 
+// pkgPath returns the path of the package in which the given named type
+// is declared. It is empty for types, like error, of the universe scope.
+func pkgPath(named *types.Named) string {
+	if pkg := named.Obj().Pkg(); pkg != nil {
+		return pkg.Path()
+	}
+	return ""
+}
+
 // isbyteslice reports whether or not the given type is a []byte type.
 func isbyteslice(t types.Type) bool {
-	if s, ok := t.(*types.Slice); ok {
-		if e, ok := s.Elem().(*types.Basic); ok && e.Kind() == types.Byte {
+	if s, ok := types.Unalias(t).(*types.Slice); ok {
+		if e, ok := types.Unalias(s.Elem()).(*types.Basic); ok && e.Kind() == types.Byte {
 			return true
 		}
 	}
@@ -694,44 +693,44 @@ func isbyteslice(t types.Type) bool {
 
 // isxmlencoder reports whether or not the given type is an *encoding/xml.Encoder type.
 func isxmlencoder(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 	return name == "Encoder" && path == "encoding/xml"
 }
 
 // isxmldecoder reports whether or not the given type is a *encoding/xml.Decoder type.
 func isxmldecoder(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 	return name == "Decoder" && path == "encoding/xml"
 }
 
 // isxmlstartelem reports whether or not the given type is a encoding/xml.StartElement type.
 func isxmlstartelem(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 	return name == "StartElement" && path == "encoding/xml"
 }
diff --git a/internal/typesutil/utils.go b/internal/typesutil/utils.go
index 7435d1c..099b7ba 100644
--- a/internal/typesutil/utils.go
+++ b/internal/typesutil/utils.go
@@ -22,11 +22,11 @@ func GetStruct(v *types.Var) (*NamedStruct, error) {
 	typ := v.Type()
 
 	var ok bool
-	if ns.Named, ok = typ.(*types.Named); ok {
+	if ns.Named, ok = types.Unalias(typ).(*types.Named); ok {
 		typ = ns.Named.Underlying()
 	}
 
-	if ns.Struct, ok = typ.(*types.Struct); !ok {
+	if ns.Struct, ok = types.Unalias(typ).(*types.Struct); !ok {
 		return nil, ErrBadType
 	}
 	return ns, nil
@@ -36,12 +36,12 @@ func GetStruct(v *types.Var) (*NamedStruct, error) {
 // variable. If the type of the given variable is not a directive an empty
 // string will be returned instead.
 func GetDirectiveName(v *types.Var) string {
-	named, ok := v.Type().(*types.Named)
+	named, ok := types.Unalias(v.Type()).(*types.Named)
 	if !ok {
 		return ""
 	}
 
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 	if !strings.HasSuffix(path, "github.com/frk/gosql") {
 		return ""
 	}
-- 
2.43.0


From 85c1aee55b1b624eaa5820bcc3788c8eb459ee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 49/93] fix: do not share analyzed record types between target
 packages

---
 internal/analysis/analysis.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 5fc1e48..8306c01 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -443,6 +443,9 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 		ftyp = named.Underlying()
 		cacheKey = named.String()
 	}
+	// Whether a type is imported, and which of its fields
+	// are accessible, depends on the target's package.
+	cacheKey = a.pkgPath + " " + cacheKey
 
 	relTypeCache.RLock()
 	v := relTypeCache.m[cacheKey]
-- 
2.43.0


From 6e5dfcc9512fe7eb8ec7d797bb2e7553e15ac8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 50/93] fix: accept filter constructors that implement the
 gosql.FilterConstructor interface without InitV2

---
 internal/analysis/analysis.go    |  6 ++++-
 internal/typesutil/predicates.go | 40 +++++++++++++++++++++-----------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 8306c01..79e4266 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -208,7 +208,11 @@ func analyzeFilterStruct(a *analysis, structType *types.Struct) (*FilterStruct,
 			}
 		} else {
 			// fields with specific names / types
-			if typesutil.ImplementsGosqlFilterConstructor(fvar.Type()) {
+			implements := typesutil.ImplementsGosqlFilterConstructor
+			if tag.Contains("filter", "v2") {
+				implements = typesutil.ImplementsGosqlFilterConstructorV2
+			}
+			if implements(fvar.Type()) {
 				if err := analyzeFilterConstructorField(a, fvar, ftag); err != nil {
 					return nil, err
 				}
diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index 9e1cf1c..e4d6441 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -389,14 +389,28 @@ func ImplementsGosqlConn(named *types.Named) bool {
 // ImplementsGosqlFilterConstructor reports whether or not the given named
 // type implements the "gosql.FilterConstructor" interface.
 func ImplementsGosqlFilterConstructor(typ types.Type) bool {
+	hasInit, _, hasRest := filterConstructorMethods(typ)
+	return hasInit && hasRest
+}
+
+// ImplementsGosqlFilterConstructorV2 reports whether or not the given named type
+// implements the "gosql.FilterConstructor" interface with InitV2 in place of Init.
+func ImplementsGosqlFilterConstructorV2(typ types.Type) bool {
+	_, hasInitV2, hasRest := filterConstructorMethods(typ)
+	return hasInitV2 && hasRest
+}
+
+// filterConstructorMethods reports whether or not the given named type has the Init method,
+// the InitV2 method, and the rest of the methods of the "gosql.FilterConstructor" interface.
+func filterConstructorMethods(typ types.Type) (hasInit, hasInitV2, hasRest bool) {
 	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
-		return false
+		return false, false, false
 	}
 
 	mm := methodsOf(named)
 
-	var hasInit, hasInitV2, hasCol, hasAnd, hasOr bool
+	var hasCol, hasAnd, hasOr bool
 
 	for i := 0; i < mm.NumMethods(); i++ {
 		m := mm.Method(i)
@@ -405,40 +419,40 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 			sig := m.Type().(*types.Signature)
 			p, r := sig.Params(), sig.Results()
 			if p.Len() != 2 || r.Len() != 0 {
-				return false
+				return false, false, false
 			}
 			if !IsStringMap(p.At(0).Type()) || !IsString(p.At(1).Type()) {
-				return false
+				return false, false, false
 			}
 			hasInit = true
 		case "InitV2": // InitV2(colmap map[string]filter.Column, tscol string)
 			sig := m.Type().(*types.Signature)
 			p, r := sig.Params(), sig.Results()
 			if p.Len() != 2 || r.Len() != 0 {
-				return false
+				return false, false, false
 			}
 			if !IsStringColumnMap(p.At(0).Type()) || !IsString(p.At(1).Type()) {
-				return false
+				return false, false, false
 			}
 			hasInitV2 = true
 		case "Col": // Col(column string, op string, value interface{})
 			sig := m.Type().(*types.Signature)
 			p, r := sig.Params(), sig.Results()
 			if p.Len() != 3 || r.Len() != 0 {
-				return false
+				return false, false, false
 			}
 			if !IsString(p.At(0).Type()) || !IsString(p.At(1).Type()) || !IsEmptyInterface(p.At(2).Type()) {
-				return false
+				return false, false, false
 			}
 			hasCol = true
 		case "And": // And(nest func())
 			sig := m.Type().(*types.Signature)
 			p, r := sig.Params(), sig.Results()
 			if p.Len() != 1 || r.Len() != 0 {
-				return false
+				return false, false, false
 			}
 			if !IsNiladicFunc(p.At(0).Type()) {
-				return false
+				return false, false, false
 			}
 			hasAnd = true
 			break
@@ -446,17 +460,17 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 			sig := m.Type().(*types.Signature)
 			p, r := sig.Params(), sig.Results()
 			if p.Len() != 1 || r.Len() != 0 {
-				return false
+				return false, false, false
 			}
 			if !IsNiladicFunc(p.At(0).Type()) {
-				return false
+				return false, false, false
 			}
 			hasOr = true
 			break
 		}
 	}
 
-	return hasInit && hasInitV2 && hasCol && hasAnd && hasOr
+	return hasInit, hasInitV2, hasCol && hasAnd && hasOr
 }
 
 // ImplementsScanner reports whether or not the given named type implements the
-- 
2.43.0


From 98c3da5bd1baf78fb9e76acf5114d169868f1b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 51/93] fix: refuse to overwrite an input file with the output

---
 internal/command/command.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/command/command.go b/internal/command/command.go
index befca8d..fd73a72 100644
--- a/internal/command/command.go
+++ b/internal/command/command.go
@@ -59,6 +59,21 @@ func (cmd *Command) Run() error {
 		return err
 	}
 
+	// make sure that no input file would be overwritten with the output
+	inFiles := make(map[string]bool)
+	for _, pkg := range pkgs {
+		for _, file := range pkg.Files {
+			inFiles[file.Path] = true
+		}
+	}
+	for _, pkg := range pkgs {
+		for _, file := range pkg.Files {
+			if path := cmd.outFilePath(file.Path); inFiles[path] {
+				return fmt.Errorf("the output file of %q would overwrite the input file %q", file.Path, path)
+			}
+		}
+	}
+
 	result := make([][]*outFile, len(pkgs))
 	for i, pkg := range pkgs {
 		outFiles := make([]*outFile, len(pkg.Files))
-- 
2.43.0


From fb4c8ebbdf7a03d78dd68b1eb9b88d683f74d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 52/93] fix: show the original error in messages about failed
 catalog queries

---
 internal/postgres/errors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 4751d54..606c3fa 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -270,7 +270,7 @@ var error_template_string = `
 Helper templates
 --------------------------------------------------------------------------------
 {{ define "external_error_issue" }}
-    - original error message: "{{Wb .Error.Error}}"
+    - original error message: "{{Wb .Err.Error}}"
     - please consider opening an issue if the error persists.
 {{ end }}
 
@@ -287,7 +287,7 @@ Database error templates
 {{ define "` + errDatabaseOpen.name() + `" -}}
 ERROR: {{Y "Failed to initialize database connection."}}
     An error occurred during the initialization of the database connection for the provided DSN "{{R .DB.DSN}}".
-    - original error message: "{{Wb .Error.Error}}"
+    - original error message: "{{Wb .Err.Error}}"
 {{ end }}
 
 {{ define "` + errDatabaseInit.name() + `" -}}
-- 
2.43.0


From 7616a4041bbd064c5541e938c976b14b9ff8477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 53/93] fix: import what the generated code uses for any method
 argument type

---
 internal/generator/generator.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 003209c..a8fcb5c 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -179,8 +179,14 @@ func (g *generator) tableExprSlice() []SQL.TableExpr {
 // buildQueryCode builds code for the given QueryStruct.
 func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 	typ := g.cfg.MethodArgumentType
-	imp := addimport(g.file, typ.PkgPath, typ.PkgName)
-	typ.PkgName = imp.name
+	conn := GO.TypeNode(GO.Ident{typ.Name})
+	if typ.PkgPath != g.info.Info.PkgPath {
+		imp := addimport(g.file, typ.PkgPath, typ.PkgName)
+		conn = GO.QualifiedIdent{imp.name, typ.Name}
+	}
+	if typ.IsPtr {
+		conn = GO.PointerType{conn}
+	}
 	if g.cfg.MethodWithContext.Value {
 		_ = addimport(g.file, "context", "")
 	}
@@ -225,11 +231,6 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 		buildQueryResultRowsScan(g, qs)
 	}
 
-	conn := GO.TypeNode(GO.QualifiedIdent{typ.PkgName, typ.Name})
-	if typ.IsPtr {
-		conn = GO.PointerType{conn}
-	}
-
 	// put it all together
 	method := GO.MethodDecl{}
 	method.Recv.Name.Name = "q"
@@ -1469,7 +1470,8 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				arg1 := GO.Ident{"len" + num}
 				arg2 := GO.Ident{"pos" + num}
 
-				call := GO.CallExpr{Fun: GO.QualifiedIdent{"gosql", "InValueList"}}
+				imp := addimport(g.file, gosqlPkgPath, gosqlPkgName)
+				call := GO.CallExpr{Fun: GO.QualifiedIdent{imp.name, "InValueList"}}
 				call.Args = GO.ArgsList{List: GO.ExprList{arg1, arg2}}
 
 				predicate := SQL.InPredicate{}
@@ -2265,7 +2267,8 @@ func makeErrorReturnStmt(g *generator, qs *analysis.QueryStruct, errExpr GO.Expr
 			errVar         = GO.Ident{"err"}
 			nilVal         = GO.Ident{"nil"}
 			queryStringVar = GO.Ident{"queryString"}
-			errorInfoType  = GO.QualifiedIdent{"gosql", "ErrorInfo"}
+			gosqlImport    = addimport(g.file, gosqlPkgPath, gosqlPkgName)
+			errorInfoType  = GO.QualifiedIdent{gosqlImport.name, "ErrorInfo"}
 		)
 
 		// produce:
-- 
2.43.0


From 79ea82ef1b8dd62716a4f413e94bb6b29ec703c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 54/93] fix: refer to imported packages by the name under which
 they are imported

---
 internal/generator/generator.go | 35 +++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index a8fcb5c..f2403dd 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -247,7 +247,8 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	if g.cfg.MethodWithContext.Value {
-		ctxType := GO.TypeNode(GO.QualifiedIdent{"context", "Context"})
+		imp := addimport(g.file, "context", "")
+		ctxType := GO.TypeNode(GO.QualifiedIdent{imp.name, "Context"})
 		method.Type.Params = GO.ParamList{
 			{Names: GO.Ident{"ctx"}, Type: ctxType},
 			method.Type.Params[0],
@@ -689,8 +690,8 @@ func addBasicConversionExpr(x GO.ExprNode, typ analysis.TypeInfo, converter stri
 // addConverterCallExpr
 func addConverterCallExpr(g *generator, x GO.ExprNode, converter string) GO.ExprNode {
 	if len(converter) > 0 {
-		addimport(g.file, pgsqlPkgPath, pgsqlPkgName)
-		sel := GO.SelectorExpr{X: GO.Ident{pgsqlPkgName}, Sel: GO.Ident{converter}}
+		imp := addimport(g.file, pgsqlPkgPath, pgsqlPkgName)
+		sel := GO.SelectorExpr{X: GO.Ident{imp.name}, Sel: GO.Ident{converter}}
 		return GO.CallExpr{Fun: sel, Args: GO.ArgsList{List: x}}
 	}
 	return x
@@ -1570,7 +1571,7 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 		queryStringVar = GO.Ident{"queryString"}
 		paramsVar      = GO.Ident{"params"}
 		ifaceSliceType = GO.Ident{"[]interface{}"}
-		ordinalParams  = GO.QualifiedIdent{"gosql", "OrdinalParameters"}
+		ordinalParams  GO.QualifiedIdent
 		forLoop        = GO.ForStmt{}
 	)
 
@@ -1638,7 +1639,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 		strConcatExprList = make([]GO.ExprNode, valueCount+1) // +1 for the final `),`
 	)
 
-	var importGosql bool
 	inputVals := append(g.inputVals, g.inputValsPKeys...)
 	for i, val := range inputVals {
 		sep := `, `
@@ -1650,7 +1650,8 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 			defaultCount += 1
 			strConcatExprList[i] = GO.RawStringLit(sep + `DEFAULT`)
 		} else {
-			importGosql = true
+			imp := addimport(g.file, gosqlPkgPath, gosqlPkgName)
+			ordinalParams = GO.QualifiedIdent{imp.name, "OrdinalParameters"}
 
 			// produce:
 			//	`, ` + gosql.OrdinalParameters[pos+<i - defaultCount>] +
@@ -1681,9 +1682,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 
 		}
 	}
-	if importGosql {
-		addimport(g.file, gosqlPkgPath, gosqlPkgName)
-	}
 
 	strConcatExprList[len(strConcatExprList)-1] = GO.RawStringLit(`),`)
 
@@ -2179,6 +2177,17 @@ func inputPKeys(t *postgres.TargetInfo) (out []*postgres.FieldWrite) {
 	return out
 }
 
+// methodNames is the set of names that are declared inside of the generated methods, plus
+// the predeclared identifiers that those methods use. A package imported under such
+// a name would either not be accessible in the method, or it would hide the identifier.
+var methodNames = map[string]bool{
+	"q": true, "c": true, "ctx": true, "queryString": true, "filterString": true, "params": true, "nstatic": true,
+	"pos": true, "i": true, "v": true, "row": true, "rows": true, "res": true, "i64": true, "err": true,
+	"f": true, "op": true, "val": true,
+	"append": true, "bool": true, "error": true, "int": true, "int64": true, "len": true, "make": true, "new": true,
+	"nil": true, "string": true,
+}
+
 // addimport adds a new impspec to the file's impset if it is not already a member of the set.
 func addimport(f *file, path, name string) *impspec {
 	if name == "" {
@@ -2188,6 +2197,12 @@ func addimport(f *file, path, name string) *impspec {
 		}
 	}
 
+	var local bool
+	if methodNames[name] {
+		name += "pkg"
+		local = true
+	}
+
 	var namesake *impspec
 	for _, imp := range f.impset {
 		// already added, exit
@@ -2201,7 +2216,7 @@ func addimport(f *file, path, name string) *impspec {
 		}
 	}
 
-	imp := &impspec{path: path, name: name}
+	imp := &impspec{path: path, name: name, local: local}
 	if namesake != nil {
 		namesake.num += 1
 		imp.name = name + strconv.Itoa(namesake.num)
-- 
2.43.0


From 94909d5a8d0852ade203370e15c9fb0e860a6825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 55/93] fix: choose the config file, and the pointer-ness of
 the argument type, deterministically

---
 internal/config/config.go | 6 +++++-
 internal/config/types.go  | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 9f15135..0334e27 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -325,7 +325,11 @@ func examineDir(path string) (isRoot bool, confName string, err error) {
 			isRoot = true
 		}
 		if (name == ".gosql" || name == ".gosql.json") && !info.IsDir() {
-			confName = name
+			// if both are present ".gosql" is used, regardless of
+			// the order in which the directory lists them.
+			if confName == "" || name == ".gosql" {
+				confName = name
+			}
 		}
 	}
 
diff --git a/internal/config/types.go b/internal/config/types.go
index b8a3a04..2ce2ebd 100644
--- a/internal/config/types.go
+++ b/internal/config/types.go
@@ -183,7 +183,7 @@ func (t *GoType) Set(value string) error {
 	if i := strings.LastIndex(value, "."); i < 0 {
 		return fmt.Errorf("bad method argument type: %q", value)
 	} else {
-		t.PkgPath, t.Name = value[:i], value[i+1:]
+		t.PkgPath, t.Name, t.IsPtr = value[:i], value[i+1:], false
 		if len(t.PkgPath) > 0 && t.PkgPath[0] == '*' {
 			t.PkgPath = t.PkgPath[1:]
 			t.IsPtr = true
-- 
2.43.0


From c94f0a479d4f00358706a338ada9fbb1276b38aa Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:29:37 +0000
Subject: [PATCH 56/93] fix: accept any import path in the identifiers of
 filter value converters

---
 internal/config/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/config/types.go b/internal/config/types.go
index 2ce2ebd..323d062 100644
--- a/internal/config/types.go
+++ b/internal/config/types.go
@@ -232,7 +232,7 @@ func (id ObjectIdent) String() string {
 	return v
 }
 
-var rxObjId = regexp.MustCompile(`^\w[\w\.-/]*\w\.[A-Za-z_]\w*$`)
+var rxObjId = regexp.MustCompile(`^\w[\w./~+-]*\w\.[A-Za-z_]\w*$`)
 
 // Set implements the flag.Value interface.
 func (id *ObjectIdent) Set(value string) error {
-- 
2.43.0


From e2f1ca3e7bd967d25e4d7a2fad983184efabc9ad Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:29:39 +0000
Subject: [PATCH 57/93] fix: refer to filter value converters by the name of
 their package

---
 internal/analysis/analysis.go   |  1 +
 internal/analysis/types.go      |  2 ++
 internal/config/config.go       | 30 ++++++++++++++++++++++++------
 internal/config/types.go        |  1 +
 internal/generator/generator.go |  2 +-
 5 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 79e4266..71b666d 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2385,6 +2385,7 @@ func AnalyzeFilterValueConverters(cfg config.Config) error {
 		filterValueConverters[key] = &Identifier{
 			Name:    fvc.Func.Name,
 			PkgPath: fvc.Func.PkgPath,
+			PkgName: fvc.Func.PkgName,
 		}
 	}
 	return nil
diff --git a/internal/analysis/types.go b/internal/analysis/types.go
index d2c5df5..500fb79 100644
--- a/internal/analysis/types.go
+++ b/internal/analysis/types.go
@@ -637,6 +637,8 @@ type Identifier struct {
 	Name string
 	// The import path of the package in which the object is declared.
 	PkgPath string
+	// The name of the package in which the object is declared.
+	PkgName string
 }
 
 func (id Identifier) IsExported() bool {
diff --git a/internal/config/config.go b/internal/config/config.go
index 0334e27..68337fa 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -292,14 +292,14 @@ func (c *Config) Validate() (err error) {
 		}
 	}
 
+	// resolve the names of the packages of the filter value converter functions
 	//
 	// TODO: needs to confirm the validity of the types & functions
-	//
-	// for i, fvc := range c.FilterValueConverters {
-	// 	if err := checkFilterValueConverter(fvc, c); err != nil {
-	// 		return err
-	// 	}
-	// }
+	for i := range c.FilterValueConverters {
+		if err := resolvePackageName(&c.FilterValueConverters[i].Func, c); err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
@@ -342,6 +342,24 @@ func examineDir(path string) (isRoot bool, confName string, err error) {
 	return isRoot, confName, nil
 }
 
+// resolvePackageName sets the package name of the given identifier, which
+// may be different from the last segment of the package's path.
+func resolvePackageName(id *ObjectIdent, c *Config) error {
+	if len(id.PkgPath) == 0 {
+		return nil
+	}
+
+	cfg := &packages.Config{Mode: packages.NeedName, Dir: c.WorkingDirectory.Value}
+	pkgs, err := packages.Load(cfg, id.PkgPath)
+	if err != nil {
+		return fmt.Errorf("failed to load package of filter value converter: %q -- %v", id, err)
+	} else if len(pkgs) != 1 || len(pkgs[0].Name) == 0 {
+		return fmt.Errorf("could not find package of filter value converter: %q", id)
+	}
+	id.PkgName = pkgs[0].Name
+	return nil
+}
+
 func checkMethodArgumentType(t *GoType, c *Config) (err error) {
 	cfg := &packages.Config{
 		Mode: packages.NeedName |
diff --git a/internal/config/types.go b/internal/config/types.go
index 323d062..828b783 100644
--- a/internal/config/types.go
+++ b/internal/config/types.go
@@ -214,6 +214,7 @@ func (t *GoType) UnmarshalJSON(data []byte) error {
 // both the flag.Value and the json.Unmarshaler interfaces.
 type ObjectIdent struct {
 	PkgPath string // the package path of the Go object
+	PkgName string // the package name of the Go object, set by Config.Validate
 	Name    string // the name of the Go object
 	IsSet   bool
 }
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index f2403dd..c765c9c 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -823,7 +823,7 @@ func buildFilterColumnMap(g *generator, fs *analysis.FilterStruct) (mapid GO.Ide
 			if id := filter.Field.FilterValueConverter(); id != nil {
 				fe := GO.FieldElement{Field: "ConvertValue"}
 				if id.NeedsImport(g.info.Info) {
-					imp := addimport(g.file, id.PkgPath, "")
+					imp := addimport(g.file, id.PkgPath, id.PkgName)
 					fe.Value = GO.QualifiedIdent{imp.name, id.Name}
 				} else {
 					fe.Value = GO.Ident{id.Name}
-- 
2.43.0


From b7f6df10a58a219e9aab140004dee1326c281c51 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 58/93] fix: declare the filter methods with the exact types of
 the fields

---
 internal/generator/generator.go  | 34 +++++++++++++-----
 internal/typesutil/predicates.go | 61 ++++++++++++++++++++++++++++++++
 2 files changed, 86 insertions(+), 9 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index c765c9c..5ba3d66 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1,6 +1,7 @@
 package generator
 
 import (
+	"go/types"
 	"io"
 	"log"
 	"strconv"
@@ -10,6 +11,7 @@ import (
 	"github.com/frk/gosql/internal/config"
 	"github.com/frk/gosql/internal/postgres"
 	"github.com/frk/gosql/internal/postgres/oid"
+	"github.com/frk/gosql/internal/typesutil"
 
 	GO "github.com/frk/ast/golang"
 	SQL "github.com/frk/ast/sqlang"
@@ -923,18 +925,10 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 			continue
 		}
 
-		// add import if necessary
-		if imported := ff.Field.Type.ImportedTypes(); len(imported) > 0 {
-			for _, typ := range imported {
-				imp := addimport(g.file, typ.PkgPath, typ.PkgName)
-				ff.Field.Type.PkgName = imp.name
-			}
-		}
-
 		// the method's input and output arguments
 		methodecl.Type.Params = GO.ParamList{
 			{Names: oper, Type: GO.Ident{"string"}},
-			{Names: value, Type: GO.Ident{string(ff.Field.Type.Literal())}},
+			{Names: value, Type: GO.Ident{filterValueType(g, ff.Field)}},
 		}
 		methodecl.Type.Results = GO.ParamList{{Type: GO.PointerType{GO.Ident{fs.TypeName}}}}
 
@@ -953,6 +947,28 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 	}
 }
 
+// filterValueType returns the type of the value argument of the method that's generated
+// for the given field. The type is the field's type with its pointer, if any, elided. The
+// packages of the types that it's composed of are imported.
+func filterValueType(g *generator, f *analysis.FieldInfo) string {
+	typ := g.info.Info.FieldMap[f].Var.Type()
+	if ptr, ok := types.Unalias(typ).(*types.Pointer); ok {
+		typ = ptr.Elem()
+	}
+
+	pkgPath := g.info.Info.PkgPath
+	if !typesutil.IsNameable(typ, pkgPath) {
+		return "interface{}"
+	}
+
+	return types.TypeString(typ, func(pkg *types.Package) string {
+		if pkg.Path() == pkgPath {
+			return ""
+		}
+		return addimport(g.file, pkg.Path(), pkg.Name()).name
+	})
+}
+
 // buildFilterMethodBoolOp
 func buildFilterMethodBoolOp(g *generator, fs *analysis.FilterStruct, name string) {
 	var (
diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index e4d6441..5b0e2f2 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -748,3 +748,64 @@ func isxmlstartelem(typ types.Type) bool {
 	path := pkgPath(named)
 	return name == "StartElement" && path == "encoding/xml"
 }
+
+// IsNameable reports whether or not the given type can be referred to in the package with the
+// given path, i.e. it's not composed of names that are local to some other package.
+func IsNameable(typ types.Type, pkgPath string) bool {
+	isNameable := func(obj types.Object) bool {
+		return obj.Pkg() == nil || obj.Exported() || obj.Pkg().Path() == pkgPath
+	}
+
+	switch T := typ.(type) {
+	case *types.Alias:
+		for i := 0; i < T.TypeArgs().Len(); i++ {
+			if !IsNameable(T.TypeArgs().At(i), pkgPath) {
+				return false
+			}
+		}
+		return isNameable(T.Obj())
+	case *types.Named:
+		for i := 0; i < T.TypeArgs().Len(); i++ {
+			if !IsNameable(T.TypeArgs().At(i), pkgPath) {
+				return false
+			}
+		}
+		return isNameable(T.Obj())
+	case *types.Pointer:
+		return IsNameable(T.Elem(), pkgPath)
+	case *types.Slice:
+		return IsNameable(T.Elem(), pkgPath)
+	case *types.Array:
+		return IsNameable(T.Elem(), pkgPath)
+	case *types.Chan:
+		return IsNameable(T.Elem(), pkgPath)
+	case *types.Map:
+		return IsNameable(T.Key(), pkgPath) && IsNameable(T.Elem(), pkgPath)
+	case *types.Tuple:
+		for i := 0; i < T.Len(); i++ {
+			if !IsNameable(T.At(i).Type(), pkgPath) {
+				return false
+			}
+		}
+	case *types.Signature:
+		return IsNameable(T.Params(), pkgPath) && IsNameable(T.Results(), pkgPath)
+	case *types.Struct:
+		for i := 0; i < T.NumFields(); i++ {
+			if !isNameable(T.Field(i)) || !IsNameable(T.Field(i).Type(), pkgPath) {
+				return false
+			}
+		}
+	case *types.Interface:
+		for i := 0; i < T.NumExplicitMethods(); i++ {
+			if m := T.ExplicitMethod(i); !isNameable(m) || !IsNameable(m.Type(), pkgPath) {
+				return false
+			}
+		}
+		for i := 0; i < T.NumEmbeddeds(); i++ {
+			if !IsNameable(T.EmbeddedType(i), pkgPath) {
+				return false
+			}
+		}
+	}
+	return true
+}
-- 
2.43.0


From 18cf8dfbf7115488bb93132ddba21eddc438827c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 59/93] fix: generate no filter method under a name that is
 already taken

---
 internal/analysis/analysis.go   |  3 +++
 internal/generator/generator.go | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 71b666d..b76031a 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -74,6 +74,8 @@ type Info struct {
 	TypeName string
 	// The soruce position of the TargetStruct's type name.
 	TypeNamePos token.Pos
+	// The struct type of the analyzed TargetStruct.
+	StructType *types.Struct
 	// FieldMap maintains a map of pointers of arbitrary type that represent
 	// the result of analyzed fields, to the fields' related go/types specific
 	// information. Intended for error reporting by the backend type-checker.
@@ -105,6 +107,7 @@ func Run(fset *token.FileSet, named *types.Named, pos token.Pos, cfg config.Conf
 	a.info.PkgPath = a.pkgPath
 	a.info.TypeName = named.Obj().Name()
 	a.info.TypeNamePos = pos
+	a.info.StructType = structType
 	a.info.FieldMap = make(map[FieldPtr]FieldVar)
 	a.info.RelSpace = make(map[string]RelIdent)
 
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 5ba3d66..f021dc3 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -897,6 +897,13 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 		selx  = GO.SelectorExpr{X: GO.SelectorExpr{X: recv, Sel: ctor}, Sel: GO.Ident{"Col"}}
 	)
 
+	// The names that cannot be used, because they're already taken
+	// by the fields and the other methods of the filter struct type.
+	taken := make(map[string]bool)
+	for i, st := 0, g.info.Info.StructType; i < st.NumFields(); i++ {
+		taken[st.Field(i).Name()] = true
+	}
+
 	for _, ff := range g.info.Filters {
 		methodecl := GO.MethodDecl{}
 
@@ -920,10 +927,11 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 		}
 		methodecl.Name.Name += ff.Field.Name
 
-		// skip if name is reserved
-		if _, ok := reservedFilterMethodNames[methodecl.Name.Name]; ok {
+		// skip if name is reserved or already taken
+		if _, ok := reservedFilterMethodNames[methodecl.Name.Name]; ok || taken[methodecl.Name.Name] {
 			continue
 		}
+		taken[methodecl.Name.Name] = true
 
 		// the method's input and output arguments
 		methodecl.Type.Params = GO.ParamList{
@@ -2518,6 +2526,9 @@ var reservedFilterMethodNames = map[string]struct{}{
 	"TextSearch":    struct{}{},
 	"AND":           struct{}{},
 	"OR":            struct{}{},
+	"Init":          struct{}{},
+	"And":           struct{}{},
+	"Or":            struct{}{},
 }
 
 var sqlQUANTIFIER = map[analysis.Quantifier]SQL.QUANTIFIER{
-- 
2.43.0


From aa80dc700aec536f82a1f4cc1a34d65453221a1d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 60/93] fix: refuse an UPDATE or DELETE of all rows without
 gosql.All

The directive is documented as the safeguard against unintentionally omitting
the where struct, but a DELETE without one, and an UPDATE or DELETE with a where
struct that has no conditions, were generated without it.
---
 internal/postgres/errors.go   |  8 ++++++++
 internal/postgres/postgres.go | 38 +++++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 606c3fa..93e0d37 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -40,6 +40,7 @@ const (
 	errRelationIndexGet          // TODO
 	errRelationIndexScan         // TODO
 	errRelationPrimaryKey
+	errRelationQualifier
 	errRelationFieldsRead
 	errRelationFieldsWrite
 
@@ -418,6 +419,13 @@ Relation error templates
     {{- template "connection_info" . -}}
 {{ end }}
 
+{{ define "` + errRelationQualifier.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Missing conditions."}}
+    The query of "{{R .Field.Definition}}" would be executed against all the rows of the relation "{{R .Rel.Name}}".
+    - an {{Wb "UPDATE"}} or a {{Wb "DELETE"}} without conditions in a "Where" struct, and without a filter, needs the {{W "gosql.All"}} directive.
+    {{- template "connection_info" . -}}
+{{ end }}
+
 {{ define "` + errRelationFieldsRead.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "No columns to read."}}
     None of the fields of "{{R .Field.Definition}}" can be read from a column of the relation "{{R .Rel.Name}}".
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 88f0ac4..c87c7b6 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -262,6 +262,7 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 		typeCheckQueryResultField,
 		typeCheckQueryRelField,
 		typeCheckQueryFieldsUsed,
+		typeCheckQueryQualifier,
 
 		typeCheckQueryWhereStruct,
 		typeCheckQueryOnConflictStruct,
@@ -319,6 +320,43 @@ func typeCheckQueryUpdatePKeys(c *checker, qs *analysis.QueryStruct) error {
 	return nil
 }
 
+// typeCheckQueryQualifier checks that an UPDATE or a DELETE that would be executed
+// against all the rows of the TARGET relation is explicitly declared to do so.
+//
+// CHECKLIST:
+//
+//	✅ The gosql.All directive MUST be present if there is neither a filter
+//	   nor a "where struct" with at least one condition.
+func typeCheckQueryQualifier(c *checker, qs *analysis.QueryStruct) error {
+	if qs.Kind != analysis.QueryKindUpdate && qs.Kind != analysis.QueryKindDelete {
+		return nil
+	}
+	if qs.All != nil || qs.Filter != nil || qs.IsUpdateWithPKeys() {
+		return nil
+	}
+	if qs.Where != nil && hasCondition(qs.Where.Items) {
+		return nil
+	}
+	return c.dbError(dbError{Code: errRelationQualifier, Rel: relInfo{Relation: c.rel}}, qs.Rel)
+}
+
+// hasCondition reports whether or not the items contain at least one condition.
+func hasCondition(items []analysis.WhereItem) bool {
+	for _, item := range items {
+		switch i := item.(type) {
+		case *analysis.WhereBoolTag:
+			continue
+		case *analysis.WhereStruct:
+			if hasCondition(i.Items) {
+				return true
+			}
+		default:
+			return true
+		}
+	}
+	return false
+}
+
 // typeCheckQueryForceDirective checks the columns listed in the gosql.Force directive's tag.
 //
 // CHECKLIST:
-- 
2.43.0


From 2c532cc948dd46a6939f5781b1fb076694000d25 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 61/93] fix: refuse arrays of records

Nothing that was generated for them compiled.
---
 internal/analysis/analysis.go | 10 +++-------
 internal/analysis/error.go    |  4 +---
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index b76031a..6d89e36 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -478,14 +478,10 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 			return a.error(errBadIterTypeFunc, field, "", "", "", "")
 		}
 	} else {
-		// If not an iterator, check for slices, arrays, and pointers.
+		// If not an iterator, check for slices and pointers.
 		if slice, ok := ftyp.(*types.Slice); ok { // allows []T / []*T
 			ftyp = slice.Elem()
 			rt.IsSlice = true
-		} else if array, ok := ftyp.(*types.Array); ok { // allows [N]T / [N]*T
-			ftyp = array.Elem()
-			rt.IsArray = true
-			rt.ArrayLen = array.Len()
 		}
 		if ptr, ok := types.Unalias(ftyp).(*types.Pointer); ok { // allows *T
 			ftyp = ptr.Elem()
@@ -493,9 +489,9 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 		}
 
 		// Get the name of the base type, if applicable.
-		if rt.IsSlice || rt.IsArray || rt.IsPointer {
+		if rt.IsSlice || rt.IsPointer {
 			if named, ok = types.Unalias(ftyp).(*types.Named); !ok {
-				// Fail if the type is a slice, an array, or a pointer
+				// Fail if the type is a slice, or a pointer
 				// while its base type remains unnamed.
 				return a.error(errBadRelType, field, "", "", "", "")
 			}
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index 20334a3..24dd2a5 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -275,14 +275,12 @@ var error_template_string = `
 
 {{ define "` + errBadRelType.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Bad \"rel\" type."}}
-    The type {{R .FieldTypeShort}} of the {{.TargetName}}.{{Wb .FieldName}} field {{Wu "IS NOT"}} a valid "{{W "iterator func"}}" type.
+    The type {{R .FieldTypeShort}} of the {{.TargetName}}.{{Wb .FieldName}} field {{Wu "IS NOT"}} a valid "{{W "rel"}}" type.
     {{Wb "HINT:"}} a valid "{{W "rel"}}" type {{Wu "MUST"}} be one of the following:
         - A {{Wu "named or unnamed struct"}} type.
         - A {{Wu "pointer to a named struct"}} type.
         - A {{Wu "slice of named structs"}} type.
         - A {{Wu "slice of pointers to named structs"}} type.
-        - An {{Wu "array of named structs"}} type.
-        - An {{Wu "array of pointers to named structs"}} type.
         - A valid {{Wu "iterator interface"}} type.
         - A valid {{Wu "iterator func"}} type.
 {{ end }}
-- 
2.43.0


From 5abd10ed21f36b8a1759cbb9038a59e63d8943a1 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 62/93] fix: ignore nested where structs without conditions

The tool panicked on them.
---
 internal/analysis/analysis.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 6d89e36..b05e5a5 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1025,11 +1025,23 @@ stackloop:
 			loop.items = append(loop.items, item)
 		}
 
+		stack = stack[:len(stack)-1]
+
 		if loop.where != nil {
 			loop.where.Items = loop.items
-		}
 
-		stack = stack[:len(stack)-1]
+			// A nested struct without any conditions adds nothing
+			// to its parent; remove it together with the bool item
+			// by which it is preceded, if any.
+			if len(loop.items) == 0 {
+				parent := stack[len(stack)-1]
+				parent.items = parent.items[:len(parent.items)-1]
+				if len(parent.items) > 0 {
+					parent.items = parent.items[:len(parent.items)-1]
+				}
+				delete(a.info.FieldMap, loop.where)
+			}
+		}
 	}
 
 	a.query.Where = new(WhereStruct)
-- 
2.43.0


From 4b7fd543b257f6a0060dfeee25a421a5ecc9587c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:47:26 +0000
Subject: [PATCH 63/93] fix: end the analysis of recursive types

A rel type that descends into itself, and types like "type T []T", made the
tool run forever.
---
 internal/analysis/analysis.go | 34 +++++++++++++++++++++++++++++-----
 internal/analysis/error.go    |  6 ++++++
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index b05e5a5..100959f 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -584,6 +584,11 @@ stackloop:
 				loop2 := new(loopstate)
 				loop2.styp = ftyp.(*types.Struct)
 				loop2.typ = &f.Type
+				for _, outer := range stack {
+					if types.Identical(outer.styp, loop2.styp) {
+						return a.error(errRecursiveRelType, fvar, "", ftag, "", "")
+					}
+				}
 				loop2.pfx = loop.pfx + strings.TrimPrefix(sqltag, ">")
 
 				// Allocate selector of the appropriate size an copy it.
@@ -654,9 +659,28 @@ stackloop:
 // pointer types it will analyze the element type of those types. The second return
 // value is the types.Type representation of the base element type of the given type.
 func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type) {
+	return analyzeTypeInfoRec(a, tt, nil)
+}
+
+// analyzeTypeInfoRec is the implementation of analyzeTypeInfo. The outer argument holds
+// the named types through which the given type was reached, the analysis does not look
+// into those again, i.e. it ends also for recursive types like "type T []T".
+func analyzeTypeInfoRec(a *analysis, tt types.Type, outer []*types.Named) (typ TypeInfo, base types.Type) {
 	base = types.Unalias(tt)
 
 	if named, ok := base.(*types.Named); ok {
+		for _, n := range outer {
+			if types.Identical(n, named) {
+				typ.Name = named.Obj().Name()
+				typ.PkgPath = named.Obj().Pkg().Path()
+				typ.PkgName = named.Obj().Pkg().Name()
+				typ.PkgLocal = typ.PkgName
+				typ.IsImported = isImportedType(a, named)
+				return typ, named.Underlying()
+			}
+		}
+		outer = append(outer, named)
+
 		typ.Name = named.Obj().Name()
 		if pkg := named.Obj().Pkg(); pkg != nil {
 			typ.PkgPath = pkg.Path()
@@ -681,19 +705,19 @@ func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type)
 		typ.IsRune = T.Name() == "rune"
 		typ.IsByte = T.Name() == "byte"
 	case *types.Slice:
-		elem, base = analyzeTypeInfo(a, T.Elem())
+		elem, base = analyzeTypeInfoRec(a, T.Elem(), outer)
 		typ.Elem = &elem
 	case *types.Array:
-		elem, base = analyzeTypeInfo(a, T.Elem())
+		elem, base = analyzeTypeInfoRec(a, T.Elem(), outer)
 		typ.Elem = &elem
 		typ.ArrayLen = T.Len()
 	case *types.Map:
-		key, _ := analyzeTypeInfo(a, T.Key())
-		elem, base = analyzeTypeInfo(a, T.Elem())
+		key, _ := analyzeTypeInfoRec(a, T.Key(), outer)
+		elem, base = analyzeTypeInfoRec(a, T.Elem(), outer)
 		typ.Key = &key
 		typ.Elem = &elem
 	case *types.Pointer:
-		elem, base = analyzeTypeInfo(a, T.Elem())
+		elem, base = analyzeTypeInfoRec(a, T.Elem(), outer)
 		typ.Elem = &elem
 	case *types.Interface:
 		typ.IsEmptyInterface = typesutil.IsEmptyInterface(T)
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index 24dd2a5..c7622a9 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -203,6 +203,7 @@ const (
 	errBadIterTypeInterface
 	errBadIterTypeFunc
 	errBadRelType
+	errRecursiveRelType
 	errIllegalQueryField
 	errIllegalStructDirective
 	errIllegalIteratorField
@@ -285,6 +286,11 @@ var error_template_string = `
         - A valid {{Wu "iterator func"}} type.
 {{ end }}
 
+{{ define "` + errRecursiveRelType.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Recursive \"rel\" type."}}
+    The field {{R .FieldDefinition}} of the "{{W "rel"}}" type of {{Wb .TargetName}} descends into a struct that contains the field itself.
+{{ end }}
+
 {{ define "` + errIllegalQueryField.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Illegal " .FieldKind "."}}
     The {{Wb .TargetXxx}} {{.TargetKind}} types {{Wu "DO NOT"}} support the {{R .FieldDefinition}} {{.FieldKind}}.
-- 
2.43.0


From 4206393eaf8d3ff8731ec7db9782bbc703864c7f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 64/93] fix: ignore empty options in the sql tag of a field

The tool panicked on them.
---
 internal/analysis/fieldmode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/analysis/fieldmode.go b/internal/analysis/fieldmode.go
index 1fb9386..8ca143a 100644
--- a/internal/analysis/fieldmode.go
+++ b/internal/analysis/fieldmode.go
@@ -48,6 +48,9 @@ func parseFieldMode(t tagutil.Tag) (m FieldMode) {
 
 		////////////////////////////////////////////////////////////////
 		// handle new options
+		if len(opt) == 0 {
+			continue
+		}
 		switch opt[0] {
 		case '-':
 			for _, c := range opt[1:] {
-- 
2.43.0


From 61333985a59096a8ff7ca9384c5be0a5dfc666c8 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 65/93] fix: refuse to write a column more than once

The server does not accept such an INSERT or UPDATE.
---
 internal/postgres/errors.go   |  7 +++++++
 internal/postgres/postgres.go | 36 ++++++++++++++++++++++++++++++-----
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 93e0d37..d7a609b 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -48,6 +48,7 @@ const (
 	errColumnUnknown
 	errColumnDefaultUnset
 	errColumnTextSearchType
+	errColumnWriteConflict
 	errColumnFieldTypeWrite
 	errColumnFieldTypeRead
 	errColumnFieldComparison
@@ -476,6 +477,12 @@ Column error templates
     {{end -}}
 {{ end }}
 
+{{ define "` + errColumnWriteConflict.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Column written more than once."}}
+    The column "{{R .Col.Name}}" referenced in "{{R .Field.Definition}}" is already written by the same query.
+    {{- template "connection_info" . -}}
+{{ end }}
+
 {{ define "` + errColumnQualifierUnknown.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Column qualifier relation not found."}}
     The qualifier "{{R .Col.Id.Qualifier}}" matches no relation.
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index c87c7b6..88e161c 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -282,14 +282,40 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 		// on/off...?)
 	}
 
-	// TODO(mkopriva): if this is an insert or update (i.e. write) the column
-	// generated from the field tags cannot contain duplicate columns. Conversely
-	// if this is a read query (select, or I,U,D with returning) the columns do
-	// not have to be unique.
-
+	if err := typeCheckQueryWrites(c, qs); err != nil {
+		return err
+	}
 	return typeCheckQueryUpdatePKeys(c, qs)
 }
 
+// typeCheckQueryWrites checks the set of columns that are written by an INSERT or UPDATE.
+//
+// CHECKLIST:
+//
+//	✅ Each column MUST be written, at most, once.
+func typeCheckQueryWrites(c *checker, qs *analysis.QueryStruct) error {
+	written := make(map[*Column]bool)
+	for _, w := range c.res.Writes {
+		if written[w.Column] {
+			return c.dbError(dbError{Code: errColumnWriteConflict, Rel: relInfo{Relation: c.rel},
+				Col: colInfo{Id: w.Field.ColIdent, Column: w.Column}}, w.Field)
+		}
+		written[w.Column] = true
+	}
+
+	if c.res.Conflict != nil {
+		updated := make(map[*Column]bool)
+		for _, col := range c.res.Conflict.Update {
+			if updated[col] {
+				return c.dbError(dbError{Code: errColumnWriteConflict, Rel: relInfo{Relation: c.rel},
+					Col: colInfo{Id: analysis.ColIdent{Name: col.Name}, Column: col}}, qs.OnConflict.Update)
+			}
+			updated[col] = true
+		}
+	}
+	return nil
+}
+
 // typeCheckQueryUpdatePKeys checks that an UPDATE that matches the rows by their
 // primary key has what is needed to do so.
 //
-- 
2.43.0


From 096ef4011f0dd6048829a0f1d2cd8dd1eb63853b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:51:01 +0000
Subject: [PATCH 66/93] fix: refuse writes to columns that are always generated

The server does not accept them. Identity columns do have a DEFAULT.
---
 internal/postgres/errors.go   |  8 ++++++++
 internal/postgres/postgres.go | 21 ++++++++++++++++++++-
 internal/postgres/types.go    |  7 +++++++
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index d7a609b..6ba7ae5 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -49,6 +49,7 @@ const (
 	errColumnDefaultUnset
 	errColumnTextSearchType
 	errColumnWriteConflict
+	errColumnGenerated
 	errColumnFieldTypeWrite
 	errColumnFieldTypeRead
 	errColumnFieldComparison
@@ -483,6 +484,13 @@ Column error templates
     {{- template "connection_info" . -}}
 {{ end }}
 
+{{ define "` + errColumnGenerated.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Column always generated."}}
+    The value of the column "{{R .Col.Name}}" referenced in "{{R .Field.Definition}}" is {{Wb "GENERATED ALWAYS"}}.
+    - such a column can be set only to its {{Wb "DEFAULT"}}, unless it is an identity column set by an {{Wb "INSERT"}} with the {{W "gosql.Override"}} directive.
+    {{- template "connection_info" . -}}
+{{ end }}
+
 {{ define "` + errColumnQualifierUnknown.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Column qualifier relation not found."}}
     The qualifier "{{R .Col.Id.Qualifier}}" matches no relation.
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 88e161c..7609dee 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -293,6 +293,8 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 // CHECKLIST:
 //
 //	✅ Each column MUST be written, at most, once.
+//	✅ Columns that are always generated MUST be set only to DEFAULT, except that
+//	   an INSERT with the gosql.Override directive can set identity columns.
 func typeCheckQueryWrites(c *checker, qs *analysis.QueryStruct) error {
 	written := make(map[*Column]bool)
 	for _, w := range c.res.Writes {
@@ -301,6 +303,14 @@ func typeCheckQueryWrites(c *checker, qs *analysis.QueryStruct) error {
 				Col: colInfo{Id: w.Field.ColIdent, Column: w.Column}}, w.Field)
 		}
 		written[w.Column] = true
+
+		if w.Field.UseDefault || (qs.Default != nil && qs.Default.Contains(w.Field.ColIdent)) {
+			continue
+		}
+		if w.Column.IsGenerated || (w.Column.IsIdentityAlways && qs.Override == nil) {
+			return c.dbError(dbError{Code: errColumnGenerated, Rel: relInfo{Relation: c.rel},
+				Col: colInfo{Id: w.Field.ColIdent, Column: w.Column}}, w.Field)
+		}
 	}
 
 	if c.res.Conflict != nil {
@@ -311,6 +321,11 @@ func typeCheckQueryWrites(c *checker, qs *analysis.QueryStruct) error {
 					Col: colInfo{Id: analysis.ColIdent{Name: col.Name}, Column: col}}, qs.OnConflict.Update)
 			}
 			updated[col] = true
+
+			if col.IsGenerated || col.IsIdentityAlways {
+				return c.dbError(dbError{Code: errColumnGenerated, Rel: relInfo{Relation: c.rel},
+					Col: colInfo{Id: analysis.ColIdent{Name: col.Name}, Column: col}}, qs.OnConflict.Update)
+			}
 		}
 	}
 	return nil
@@ -1962,7 +1977,9 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 		, a.attname
 		, a.atttypmod
 		, a.attnotnull
-		, a.atthasdef
+		, a.atthasdef OR COALESCE(to_jsonb(a)->>'attidentity', '') <> ''
+		, COALESCE(to_jsonb(a)->>'attgenerated', '') <> ''
+		, COALESCE(to_jsonb(a)->>'attidentity', '') = 'a'
 		, COALESCE(i.indisprimary, false)
 		, a.attndims
 		, a.atttypid
@@ -1991,6 +2008,8 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 			&col.TypeMod,
 			&col.HasNotNull,
 			&col.HasDefault,
+			&col.IsGenerated,
+			&col.IsIdentityAlways,
 			&col.IsPrimary,
 			&col.NumDims,
 			&col.TypeOID,
diff --git a/internal/postgres/types.go b/internal/postgres/types.go
index a90ba38..87cd7ce 100644
--- a/internal/postgres/types.go
+++ b/internal/postgres/types.go
@@ -220,6 +220,13 @@ type (
 		HasNotNull bool
 		// Indicates whether or not the column has a DEFAULT value.
 		HasDefault bool
+		// Indicates whether or not the column's value is always generated by
+		// the server, i.e. it can be set only to DEFAULT.
+		IsGenerated bool
+		// Indicates whether or not the column is an identity column that is
+		// "GENERATED ALWAYS", i.e. an INSERT needs an OVERRIDING clause to
+		// set it, and an UPDATE can set it only to DEFAULT.
+		IsIdentityAlways bool
 		// Reports whether or not the column is a primary key.
 		IsPrimary bool
 		// The number of dimensions if the column is an array type, otherwise 0.
-- 
2.43.0


From c92969eb69342b8fb41b2e31597d8587976e9e1c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 67/93] fix: refuse a field with the name of the generated
 method

---
 internal/analysis/analysis.go | 7 +++++++
 internal/analysis/error.go    | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 100959f..fe77515 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -254,6 +254,13 @@ func analyzeQueryStruct(a *analysis, structType *types.Struct) (*QueryStruct, er
 		panic(a.query.TypeName + " struct type has unsupported name prefix.") // this shouldn't happen
 	}
 
+	// A type cannot have both a field and a method with the same name.
+	for i := 0; i < structType.NumFields(); i++ {
+		if fvar := structType.Field(i); fvar.Name() == a.cfg.MethodName.Value && fvar.Name() != "" {
+			return nil, a.error(errConflictingMethodName, fvar, "", structType.Tag(i), "", "")
+		}
+	}
+
 	// Find and anlyze the "rel" field.
 	for i := 0; i < structType.NumFields(); i++ {
 		ftag := structType.Tag(i)
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index c7622a9..8f2fb0b 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -217,6 +217,7 @@ const (
 	errConflictingRelationDirective
 	errConflictingFieldOrDirective
 	errConflictingFilterConstructor
+	errConflictingMethodName
 	errMissingRelField
 	errMissingTagValue
 	errMissingTagColumnList
@@ -291,6 +292,11 @@ var error_template_string = `
     The field {{R .FieldDefinition}} of the "{{W "rel"}}" type of {{Wb .TargetName}} descends into a struct that contains the field itself.
 {{ end }}
 
+{{ define "` + errConflictingMethodName.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Conflicting method name."}}
+    The field {{R .FieldDefinition}} of {{Wb .TargetName}} has the name of the method that is to be generated.
+{{ end }}
+
 {{ define "` + errIllegalQueryField.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Illegal " .FieldKind "."}}
     The {{Wb .TargetXxx}} {{.TargetKind}} types {{Wu "DO NOT"}} support the {{R .FieldDefinition}} {{.FieldKind}}.
-- 
2.43.0


From 84d536b6e2b565345a3ef9a5bb8fbd81b2efc1fb Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 68/93] fix: refuse generic target types

---
 internal/analysis/analysis.go | 4 ++++
 internal/analysis/error.go    | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index fe77515..89213d8 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -111,6 +111,10 @@ func Run(fset *token.FileSet, named *types.Named, pos token.Pos, cfg config.Conf
 	a.info.FieldMap = make(map[FieldPtr]FieldVar)
 	a.info.RelSpace = make(map[string]RelIdent)
 
+	if named.TypeParams().Len() > 0 {
+		return nil, a.error(errGenericTargetType, nil, "", "", "", "")
+	}
+
 	if strings.HasPrefix(strings.ToLower(named.Obj().Name()), "filter") {
 		s, err := analyzeFilterStruct(a, structType)
 		if err != nil {
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index 8f2fb0b..f1c7898 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -204,6 +204,7 @@ const (
 	errBadIterTypeFunc
 	errBadRelType
 	errRecursiveRelType
+	errGenericTargetType
 	errIllegalQueryField
 	errIllegalStructDirective
 	errIllegalIteratorField
@@ -292,6 +293,11 @@ var error_template_string = `
     The field {{R .FieldDefinition}} of the "{{W "rel"}}" type of {{Wb .TargetName}} descends into a struct that contains the field itself.
 {{ end }}
 
+{{ define "` + errGenericTargetType.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Generic " .TargetKind " type."}}
+    The {{Wb .TargetName}} {{.TargetKind}} type is generic, {{.TargetKind}} types {{Wu "MUST NOT"}} have type parameters.
+{{ end }}
+
 {{ define "` + errConflictingMethodName.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Conflicting method name."}}
     The field {{R .FieldDefinition}} of {{Wb .TargetName}} has the name of the method that is to be generated.
-- 
2.43.0


From e069a6490623e51a2aaf3ff2f7120f45dd2a6968 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 69/93] fix: instantiate generic and unnamed types by their
 full name

---
 internal/analysis/analysis.go   | 57 +++++++++++++++++++++++++++++++++
 internal/generator/generator.go | 31 ++++++++++--------
 2 files changed, 74 insertions(+), 14 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 89213d8..d19e52e 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -304,6 +304,10 @@ func analyzeQueryStruct(a *analysis, structType *types.Struct) (*QueryStruct, er
 		}
 	}
 
+	if err := checkOutputTypes(a); err != nil {
+		return nil, err
+	}
+
 	// TODO(mkopriva): if QueryKind is Select, Update, or Insert, and the analyzed
 	// RelType.Fields slice is empty (for Select also check ResultType.Fields), then fail.
 
@@ -625,6 +629,7 @@ stackloop:
 				node.IsImported = typ.IsImported
 				node.IsPointer = (f.Type.Kind == TypeKindPtr)
 				node.Mode = parseFieldMode(tag)
+				rt.FieldMap[node] = FieldVar{Var: fvar, Tag: ftag}
 				loop2.selector = append(loop2.selector, node)
 
 				stack = append(stack, loop2)
@@ -788,6 +793,58 @@ func analyzeIteratorFunction(a *analysis, rt *RelType, sig *types.Signature) (ou
 	return named, true
 }
 
+// BaseTypeOf returns the base type of a relation, or a nested struct, i.e. the
+// type that remains after the iterator, the slice, and the pointer are removed.
+func BaseTypeOf(typ types.Type) types.Type {
+	switch T := typ.Underlying().(type) {
+	case *types.Interface:
+		if T.NumExplicitMethods() == 1 {
+			typ = T.ExplicitMethod(0).Type().(*types.Signature).Params().At(0).Type()
+		}
+	case *types.Signature:
+		typ = T.Params().At(0).Type()
+	case *types.Slice:
+		typ = T.Elem()
+	case *types.Pointer:
+		return T.Elem()
+	}
+	if ptr, ok := types.Unalias(typ).(*types.Pointer); ok {
+		typ = ptr.Elem()
+	}
+	return typ
+}
+
+// checkOutputTypes checks that the types which the generated code will have
+// to instantiate to hold the query's output can be referred to by that code.
+func checkOutputTypes(a *analysis) error {
+	var ptr FieldPtr
+	var rt RelType
+	switch q := a.query; {
+	case q.Result != nil:
+		ptr, rt = q.Result, q.Result.Type
+	case q.Kind == QueryKindSelect || (q.Return != nil && !q.IsInsertOrUpdate()):
+		ptr, rt = q.Rel, q.Rel.Type
+	default:
+		return nil
+	}
+
+	if fv := a.info.FieldMap[ptr]; rt.IsSlice || rt.IsIter || rt.IsPointer {
+		if !typesutil.IsNameable(BaseTypeOf(fv.Var.Type()), a.pkgPath) {
+			return a.error(errBadRelType, fv.Var, "", fv.Tag, "", "")
+		}
+	}
+	for _, f := range rt.Fields {
+		for _, node := range f.Selector {
+			if fv := a.info.FieldMap[node]; node.IsPointer {
+				if !typesutil.IsNameable(BaseTypeOf(fv.Var.Type()), a.pkgPath) {
+					return a.error(errBadRelType, fv.Var, "", fv.Tag, "", "")
+				}
+			}
+		}
+	}
+	return nil
+}
+
 ////////////////////////////////////////////////////////////////////////////////
 // Where Struct Analysis
 //
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index f021dc3..f91eee7 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -501,19 +501,17 @@ func buildQueryOutputInitRoot(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	typ := qs.Rel.Type
+	fvar := g.info.Info.FieldMap[qs.Rel].Var
 	if qs.Result != nil {
 		typ = qs.Result.Type
+		fvar = g.info.Info.FieldMap[qs.Result].Var
 	}
 
 	if !typ.IsSlice && !typ.IsIter && !typ.IsPointer {
 		return // nothing to initialize
 	}
 
-	typeNode := GO.TypeNode(GO.Ident{typ.Base.Name})
-	if typ.Base.IsImported {
-		imp := addimport(g.file, typ.Base.PkgPath, typ.Base.PkgName)
-		typeNode = GO.QualifiedIdent{imp.name, typ.Base.Name}
-	}
+	typeNode := makeTypeNode(g, analysis.BaseTypeOf(fvar.Type()))
 
 	var rootinit GO.StmtNode
 	if !typ.IsSlice && !typ.IsIter && typ.IsPointer {
@@ -557,15 +555,11 @@ func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
 
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			if node.IsPointer && !done[key] {
-				typeNode := GO.TypeNode(GO.Ident{node.TypeName})
-				if node.IsImported {
-					imp := addimport(g.file, node.TypePkgPath, node.TypePkgName)
-					typeNode = GO.QualifiedIdent{imp.name, node.TypeName}
-				}
+				fvar := g.info.Info.FieldMap[node].Var
 
 				init := GO.AssignStmt{Token: GO.Assign}
 				init.Lhs = fx
-				init.Rhs = GO.CallNewExpr{typeNode}
+				init.Rhs = GO.CallNewExpr{makeTypeNode(g, analysis.BaseTypeOf(fvar.Type()))}
 				g.outputInit = append(g.outputInit, init)
 
 				done[key] = true
@@ -964,19 +958,28 @@ func filterValueType(g *generator, f *analysis.FieldInfo) string {
 		typ = ptr.Elem()
 	}
 
-	pkgPath := g.info.Info.PkgPath
-	if !typesutil.IsNameable(typ, pkgPath) {
+	if !typesutil.IsNameable(typ, g.info.Info.PkgPath) {
 		return "interface{}"
 	}
+	return typeString(g, typ)
+}
 
+// typeString returns the string representation of the given type as it is to be written
+// in the generated file, the packages that the type refers to are added to the imports.
+func typeString(g *generator, typ types.Type) string {
 	return types.TypeString(typ, func(pkg *types.Package) string {
-		if pkg.Path() == pkgPath {
+		if pkg.Path() == g.info.Info.PkgPath {
 			return ""
 		}
 		return addimport(g.file, pkg.Path(), pkg.Name()).name
 	})
 }
 
+// makeTypeNode
+func makeTypeNode(g *generator, typ types.Type) GO.TypeNode {
+	return GO.Ident{typeString(g, typ)}
+}
+
 // buildFilterMethodBoolOp
 func buildFilterMethodBoolOp(g *generator, fs *analysis.FilterStruct, name string) {
 	var (
-- 
2.43.0


From e7729971810d94cfb5c32c09f516c4fcc77f39ab Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:26:31 +0000
Subject: [PATCH 70/93] fix: refuse blank relation fields that the query has to
 access

---
 internal/analysis/analysis.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index d19e52e..0a1c2f2 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -304,6 +304,11 @@ func analyzeQueryStruct(a *analysis, structType *types.Struct) (*QueryStruct, er
 		}
 	}
 
+	// A blank "rel" field is inaccessible, it can't be used for the query's input, nor output.
+	if q := a.query; q.Rel.FieldName == "_" && (q.IsInsertOrUpdate() || (q.Result == nil && !q.IsWithoutOutput())) {
+		fv := a.info.FieldMap[a.query.Rel]
+		return nil, a.error(errIllegalQueryField, fv.Var, "", fv.Tag, "", "")
+	}
 	if err := checkOutputTypes(a); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From debf68fd3ce3934a7a01180412e9e8c707e85780 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:26:31 +0000
Subject: [PATCH 71/93] fix: refuse ambiguous columns in the UPDATE of a slice

---
 internal/postgres/errors.go   |  2 +-
 internal/postgres/postgres.go | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 6ba7ae5..774e08e 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -480,7 +480,7 @@ Column error templates
 
 {{ define "` + errColumnWriteConflict.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Column written more than once."}}
-    The column "{{R .Col.Name}}" referenced in "{{R .Field.Definition}}" is already written by the same query.
+    The column "{{R .Col.Name}}" referenced in "{{R .Field.Definition}}" is already written, or matched, by the same query.
     {{- template "connection_info" . -}}
 {{ end }}
 
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 7609dee..a3993df 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -358,6 +358,19 @@ func typeCheckQueryUpdatePKeys(c *checker, qs *analysis.QueryStruct) error {
 	if !ok {
 		return c.dbError(dbError{Code: errRelationPrimaryKey, Rel: relInfo{Relation: c.rel}}, qs.Rel)
 	}
+
+	// The columns of the list of records that is joined with the relation have to be
+	// unique, or else the references to the columns of that list would be ambiguous.
+	if qs.Rel.Type.IsSlice {
+		fields := make(map[*Column]*analysis.FieldInfo)
+		for _, fw := range append(c.res.Writes[:len(c.res.Writes):len(c.res.Writes)], c.res.PKeys...) {
+			if f := fields[fw.Column]; f != nil && f != fw.Field {
+				return c.dbError(dbError{Code: errColumnWriteConflict, Rel: relInfo{Relation: c.rel},
+					Col: colInfo{Id: fw.Field.ColIdent, Column: fw.Column}}, fw.Field)
+			}
+			fields[fw.Column] = fw.Field
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From d449a8874ccbc2f7c362ff2530f9bc010323c092 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 72/93] fix: report that the package of the method argument
 type is not found

---
 internal/config/config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/config/config.go b/internal/config/config.go
index 68337fa..5ddbd34 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -380,6 +380,8 @@ func checkMethodArgumentType(t *GoType, c *Config) (err error) {
 	pkgs, err := packages.Load(cfg, t.PkgPath)
 	if err != nil {
 		return fmt.Errorf("failed to load package of method argument type: %q -- %v", t, err)
+	} else if len(pkgs) == 0 {
+		return fmt.Errorf("could not find package of method argument type: %q", t)
 	}
 
 	for _, syn := range pkgs[0].Syntax {
-- 
2.43.0


From c04dc258693583dc5084f4d764fda4ce028d2fab Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:24:06 +0000
Subject: [PATCH 73/93] fix: do not read fields that can be neither read nor
 written

---
 internal/analysis/types.go    | 11 +++++++++++
 internal/postgres/postgres.go |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/analysis/types.go b/internal/analysis/types.go
index 500fb79..b904a8b 100644
--- a/internal/analysis/types.go
+++ b/internal/analysis/types.go
@@ -693,6 +693,17 @@ func (f FieldInfo) IsWriteOnly() bool {
 	return f.Mode.IsWriteOnly()
 }
 
+// CanSelect reports whether or not the field's column can be read, which it
+// cannot if the field itself or one of its parent fields cannot be read.
+func (f FieldInfo) CanSelect() bool {
+	for i := range f.Selector {
+		if !f.Selector[i].Mode.CanSelect() {
+			return false
+		}
+	}
+	return f.Mode.CanSelect()
+}
+
 func (f FieldInfo) ExcludeFromFilter() bool {
 	for i := range f.Selector {
 		if f.Selector[i].Mode.CanExcludeFilter() {
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index a3993df..5344ae2 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -2159,7 +2159,7 @@ func skipFieldUpdate(c *checker, fw *FieldWrite) bool {
 
 // skipFieldRead reports whether or not the given FieldRead should be skipped.
 func skipFieldRead(c *checker, fr *FieldRead) bool {
-	return fr.Field.IsWriteOnly() && (c.force == nil || !c.force.Contains(fr.ColIdent))
+	return !fr.Field.CanSelect() && (c.force == nil || !c.force.Contains(fr.ColIdent))
 }
 
 // isByteSlice reports whether or not the given type is a []byte or a *[]byte.
-- 
2.43.0


From aba38c1ca3f56d41a9e1207995f347d8bf8d7d52 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:24:07 +0000
Subject: [PATCH 74/93] fix: apply the write options of a nested struct to its
 fields

---
 internal/analysis/types.go    | 22 ++++++++++++++++++++++
 internal/postgres/postgres.go |  4 ++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/types.go b/internal/analysis/types.go
index b904a8b..04b8f90 100644
--- a/internal/analysis/types.go
+++ b/internal/analysis/types.go
@@ -704,6 +704,28 @@ func (f FieldInfo) CanSelect() bool {
 	return f.Mode.CanSelect()
 }
 
+// CanInsert reports whether or not the field's column can be inserted, which
+// it cannot if the field itself or one of its parent fields cannot be inserted.
+func (f FieldInfo) CanInsert() bool {
+	for i := range f.Selector {
+		if !f.Selector[i].Mode.CanInsert() {
+			return false
+		}
+	}
+	return f.Mode.CanInsert()
+}
+
+// CanUpdate reports whether or not the field's column can be updated, which
+// it cannot if the field itself or one of its parent fields cannot be updated.
+func (f FieldInfo) CanUpdate() bool {
+	for i := range f.Selector {
+		if !f.Selector[i].Mode.CanUpdate() {
+			return false
+		}
+	}
+	return f.Mode.CanUpdate()
+}
+
 func (f FieldInfo) ExcludeFromFilter() bool {
 	for i := range f.Selector {
 		if f.Selector[i].Mode.CanExcludeFilter() {
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 5344ae2..127f57d 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -2149,12 +2149,12 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 
 // skipFieldInsert reports whether or not the given FieldWrite should be skipped for INSERTs.
 func skipFieldInsert(c *checker, fw *FieldWrite) bool {
-	return !fw.Field.Mode.CanInsert() && (c.force == nil || !c.force.Contains(fw.ColIdent))
+	return !fw.Field.CanInsert() && (c.force == nil || !c.force.Contains(fw.ColIdent))
 }
 
 // skipFieldUpdate reports whether or not the given FieldWrite should be skipped for UPDATEs.
 func skipFieldUpdate(c *checker, fw *FieldWrite) bool {
-	return !fw.Field.Mode.CanUpdate() && (c.force == nil || !c.force.Contains(fw.ColIdent))
+	return !fw.Field.CanUpdate() && (c.force == nil || !c.force.Contains(fw.ColIdent))
 }
 
 // skipFieldRead reports whether or not the given FieldRead should be skipped.
-- 
2.43.0


From b68501c7bcefe88466cd4177c4d3f441cbb9d8ec Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:34:42 +0000
Subject: [PATCH 75/93] fix: refuse a from or using block without a relation

The block's relation is the first item of the generated FROM or USING
clause, without it the generator panicked.
---
 internal/analysis/analysis.go | 4 ++++
 internal/analysis/error.go    | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 0a1c2f2..3def28e 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1206,6 +1206,10 @@ func analyzeJoinStruct(a *analysis, f *types.Var, tag string) (err error) {
 
 	}
 
+	if join.Relation == nil && (fname == "from" || fname == "using") {
+		return a.error(errMissingRelationDirective, f, "", tag, "", "")
+	}
+
 	a.query.Join = join
 	a.info.FieldMap[a.query.Join] = FieldVar{Var: f, Tag: tag}
 	return nil
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index f1c7898..def9e05 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -223,6 +223,7 @@ const (
 	errMissingTagValue
 	errMissingTagColumnList
 	errMissingOnConflictTarget
+	errMissingRelationDirective
 	errMissingFilterConstructor
 	errBadIdentTagValue
 	errBadColIdTagValue
@@ -446,6 +447,12 @@ var error_template_string = `
         - The {{Ci "gosql.Constraint"}} directive.
 {{ end }}
 
+{{ define "` + errMissingRelationDirective.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Missing \"gosql.Relation\" directive."}}
+    The {{R .FieldName}} struct field in {{Wb .TargetName}} is missing a {{Ci "gosql.Relation"}} directive.
+    {{Wb "FIX:"}} Make sure that the {{R .FieldName}} struct field in {{Wb .TargetName}} has {{Wu "exactly one"}} {{Ci "gosql.Relation"}} directive.
+{{ end }}
+
 {{ define "` + errMissingFilterConstructor.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Missing filter constructor field."}}
     The {{R .TargetName}} struct type has no field that implements the "gosql.FilterConstructor" interface.
-- 
2.43.0


From b7c09ec2b197e8c099757e9a834fed85db686c6e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:42:23 +0000
Subject: [PATCH 76/93] fix: generate cross joins and joins without conditions
 as declared

A CROSS JOIN cannot have conditions, they were silently dropped from the
generated query. A join of another kind that has no conditions made the
generator panic.
---
 internal/analysis/analysis.go   | 4 ++++
 internal/analysis/error.go      | 7 +++++++
 internal/generator/generator.go | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 3def28e..170c119 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1251,6 +1251,10 @@ func analyzeJoinStructJoinDirective(a *analysis, j *JoinStruct, dirName string,
 	dir.RelIdent = rid
 	dir.JoinType = stringToJoinType[dirName]
 
+	if conds := tag["sql"][1:]; dir.JoinType == JoinTypeCross && len(conds) > 0 {
+		return a.error(errIllegalJoinCondition, f, j.FieldName, ftag, conds[0], "")
+	}
+
 	for _, val := range tag["sql"][1:] {
 		vals := strings.Split(val, ";")
 		for i, val := range vals {
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index def9e05..ba03805 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -235,6 +235,7 @@ const (
 	errBadDirectiveBooleanExpr
 	errBadBetweenPredicate
 	errBadJoinConditionLHS
+	errIllegalJoinCondition
 	errIllegalSliceUpdateModifier
 	errIllegalListPredicate
 	errIllegalUnaryPredicate
@@ -531,6 +532,12 @@ var error_template_string = `
 	}
 {{ end }}
 
+{{ define "` + errIllegalJoinCondition.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Illegal join condition."}}
+    The {{R .FieldTypeShort}} directive in {{Wb .TargetName}} cannot have the join condition {{R .TagExpr}}.
+    {{Wb "FIX:"}} Remove the condition, or use the {{Ci "gosql.InnerJoin"}} directive instead.
+{{ end }}
+
 {{ define "` + errBadJoinConditionLHS.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Bad join_condition LHS."}}
     The LHS "{{R .TagError}}" of the "{{R .TagExpr}}" expression in {{R (raw .TagString)}} is not allowed. 
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index f91eee7..d984932 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1364,6 +1364,9 @@ func buildSQLTableJoinSlice(g *generator, qs *analysis.QueryStruct) {
 
 		searchCond, _ := makeSQLBoolValueExprList(g, conds, GO.SelectorExpr{}, false)
 		searchCond.ListStyle = false
+		if searchCond.Initial == nil { // no conditions
+			searchCond.Initial = SQL.TruthPredicate{Predicand: SQL.Literal{"TRUE"}, Truth: SQL.TRUE}
+		}
 
 		join := SQL.TableJoin{}
 		join.Type = sqlJoinType[dir.JoinType]
-- 
2.43.0


From efda9f54d318dd6e3b737f87de3a0d8d01752b19 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 77/93] fix: look up relations by the name that the queries use

The generated queries quote the relation's name, looking it up unquoted
accepted relations, e.g. T_USER for t_user, that the queries cannot find.
---
 internal/analysis/types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/types.go b/internal/analysis/types.go
index 04b8f90..2d2014f 100644
--- a/internal/analysis/types.go
+++ b/internal/analysis/types.go
@@ -847,11 +847,12 @@ func (t *RelType) HasFieldWithColumn(colName string) bool {
 	return false
 }
 
+// QualifiedName returns the name of the relation as it is written in the generated queries.
 func (id *RelIdent) QualifiedName() string {
 	if len(id.Qualifier) > 0 {
-		return id.Qualifier + "." + id.Name
+		return id.Qualifier + `."` + id.Name + `"`
 	}
-	return id.Name
+	return `"` + id.Name + `"`
 }
 
 // GetRelField (implements TargetStruct) returns the RelField of the QueryStruct.
-- 
2.43.0


From 58727524530a16ecfecca688d97987b455fae3b6 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:45:24 +0000
Subject: [PATCH 78/93] fix: refuse reserved keywords as relation aliases

The aliases are not quoted by the generated queries.
---
 internal/postgres/errors.go   | 23 +++++++++++++++++++++++
 internal/postgres/postgres.go | 24 ++++++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 774e08e..411cbf1 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -43,6 +43,7 @@ const (
 	errRelationQualifier
 	errRelationFieldsRead
 	errRelationFieldsWrite
+	errRelationKeyword
 
 	// column errors
 	errColumnUnknown
@@ -50,6 +51,8 @@ const (
 	errColumnTextSearchType
 	errColumnWriteConflict
 	errColumnGenerated
+	errColumnAmbiguous
+	errColumnJoinTarget
 	errColumnFieldTypeWrite
 	errColumnFieldTypeRead
 	errColumnFieldComparison
@@ -440,6 +443,12 @@ Relation error templates
     {{- template "connection_info" . -}}
 {{ end }}
 
+{{ define "` + errRelationKeyword.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Reserved keyword."}}
+    The schema, or alias, of the relation "{{R .Rel.Ref}}" referenced in "{{R .Field.Definition}}" is a reserved keyword.
+    {{- template "connection_info" . -}}
+{{ end }}
+
 --------------------------------------------------------------------------------
 Column error templates
 --------------------------------------------------------------------------------
@@ -484,6 +493,20 @@ Column error templates
     {{- template "connection_info" . -}}
 {{ end }}
 
+{{ define "` + errColumnAmbiguous.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Ambiguous column reference."}}
+    The column "{{R .Col.IdRef}}" referenced in "{{R .Field.Definition}}" is present in more than one of the joined relations.
+    {{Wb "FIX:"}} Qualify the column with the name, or alias, of its relation.
+    {{- template "connection_info" . -}}
+{{ end }}
+
+{{ define "` + errColumnJoinTarget.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Illegal column reference."}}
+    The column "{{R .Col.IdRef}}" referenced in "{{R .Field.Definition}}" is a column of the target relation. The join conditions of an UPDATE or DELETE cannot reference the target relation.
+    {{Wb "FIX:"}} Move the condition to the "where" struct.
+    {{- template "connection_info" . -}}
+{{ end }}
+
 {{ define "` + errColumnGenerated.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Column always generated."}}
     The value of the column "{{R .Col.Name}}" referenced in "{{R .Field.Definition}}" is {{Wb "GENERATED ALWAYS"}}.
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 127f57d..233010c 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1940,6 +1940,10 @@ func loadTargetRelation(c *checker, f *analysis.RelField) error {
 		return err
 	}
 
+	if err := checkRelKeywords(c, rel, rid, f); err != nil {
+		return err
+	}
+
 	// Map the "" (empty string) key to the target relation, this will allow
 	// columns, constraints, and indexes that were specified without a qualifier
 	// to be associated with this target relation.
@@ -1955,10 +1959,30 @@ func loadJoinRelation(c *checker, rid analysis.RelIdent, ptr analysis.FieldPtr)
 	if rel, err = loadRelation(c, c.db, rid, ptr); err != nil {
 		return nil, err
 	}
+	if err := checkRelKeywords(c, rel, rid, ptr); err != nil {
+		return nil, err
+	}
 	c.relMap[relIdentKey(rid)] = rel
 	return rel, nil
 }
 
+// checkRelKeywords checks that the parts of the given identifier that are not
+// quoted by the generated queries are not reserved keywords.
+func checkRelKeywords(c *checker, rel *Relation, rid analysis.RelIdent, ptr analysis.FieldPtr) error {
+	const selectKeywordExists = `SELECT EXISTS (
+		SELECT 1 FROM pg_get_keywords()
+		WHERE catcode IN ('R', 'T') AND word IN (lower($1), lower($2))
+	)` //`
+	var exists bool
+	row := c.db.QueryRow(selectKeywordExists, rid.Qualifier, rid.Alias)
+	if err := row.Scan(&exists); err != nil {
+		return c.dbError(dbError{Code: errRelationScan, Rel: relInfo{Id: rid, Relation: rel}, Err: err}, ptr)
+	} else if exists {
+		return c.dbError(dbError{Code: errRelationKeyword, Rel: relInfo{Id: rid, Relation: rel}}, ptr)
+	}
+	return nil
+}
+
 func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldPtr) (*Relation, error) {
 	db.catalog.Lock()
 	defer db.catalog.Unlock()
-- 
2.43.0


From 0e1b439c492e6436f13799d60475b67df6602f85 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:46:29 +0000
Subject: [PATCH 79/93] fix: qualify the columns of the target relation in
 queries with joins

Unqualified columns belong to the target relation, but they were ambiguous
in the query if a joined relation has a column of the same name.
---
 internal/generator/generator.go | 50 +++++++++++++++++++++------------
 internal/postgres/errors.go     | 16 -----------
 2 files changed, 32 insertions(+), 34 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index d984932..8a5e5d5 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -47,6 +47,11 @@ func Write(f io.Writer, pkgName string, targets []*postgres.TargetInfo, cfg conf
 
 		switch s := info.Struct.(type) {
 		case *analysis.QueryStruct:
+			// the columns of the target relation have to be told apart from those
+			// of the joined relations and from those of the VALUES list
+			if s.Join != nil || isSliceUpdate(s) {
+				g.relQualifier = relQualifier(s.Rel.Id)
+			}
 			buildQueryCode(g, s)
 		case *analysis.FilterStruct:
 			buildFilterCode(g, s)
@@ -152,6 +157,8 @@ type generator struct {
 	offsetClause SQL.OffsetClause
 	// The ON CONFLICT clause for the sqlString (INSERT).
 	onConflictClause *SQL.OnConflictClause
+	// The qualifier for the target relation's columns that were specified without one.
+	relQualifier string
 	// The list of table joins to be used in a DELETE-USING, UPDATE-FROM, SELECT-FROM clause.
 	tableJoinSlice []SQL.TableJoin
 
@@ -605,7 +612,7 @@ func buildQueryOutputSourceColumns(g *generator, qs *analysis.QueryStruct) {
 
 	for _, fr := range g.info.Reads {
 		var expr SQL.ValueExpr
-		expr = makeRelColRef(qs, fr.ColIdent)
+		expr = makeColRef(g, fr.ColIdent)
 		if fr.NeedsCOALESCE() {
 			expr = addCoalesceCallExpr(expr, fr.Field.CoalesceValue, fr.Column)
 		}
@@ -1282,7 +1289,7 @@ func buildSQLOrderClause(g *generator, qs *analysis.QueryStruct) {
 
 	for _, item := range qs.OrderBy.Items {
 		order := SQL.OrderBy{}
-		order.Column = makeColRef(item.ColIdent)
+		order.Column = makeColRef(g, item.ColIdent)
 		order.Desc = (item.Direction == analysis.OrderDesc)
 		order.NullsFirst = (item.Nulls == analysis.NullsFirst)
 		g.orderClause.List = append(g.orderClause.List, order)
@@ -1326,7 +1333,7 @@ func buildSQLWhereClause(g *generator, qs *analysis.QueryStruct) {
 		for i, fw := range g.info.PKeys {
 			predicate := SQL.ComparisonPredicate{}
 			predicate.Cmp = sqlCMPOP[analysis.IsEQ]
-			predicate.LPredicand = makeRelColRef(qs, fw.ColIdent)
+			predicate.LPredicand = makeColRef(g, fw.ColIdent)
 			predicate.RPredicand = makeParamSpec(g, fw.Field)
 
 			if qs.Rel.Type.IsSlice {
@@ -1360,6 +1367,11 @@ func buildSQLTableJoinSlice(g *generator, qs *analysis.QueryStruct) {
 		conds := make([]postgres.WhereConditional, len(g.info.Joins[i]))
 		for j := 0; j < len(g.info.Joins[i]); j++ {
 			conds[j] = g.info.Joins[i][j]
+
+			// the left-hand side column always belongs to the joined relation
+			if cond, ok := conds[j].(*postgres.ColumnConditional); ok && len(cond.LHSColIdent.Qualifier) == 0 {
+				cond.LHSColIdent.Qualifier = relQualifier(dir.RelIdent)
+			}
 		}
 
 		searchCond, _ := makeSQLBoolValueExprList(g, conds, GO.SelectorExpr{}, false)
@@ -1411,7 +1423,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				fieldName = cond.FieldName // needed for isin/notin predicates
 				pred = cond.Predicate
 				qua = cond.Quantifier
-				lhs = makeColRef(cond.ColIdent)
+				lhs = makeColRef(g, cond.ColIdent)
 				rhs = makeParamSpec(g, cond)
 
 				if len(cond.FuncName) > 0 {
@@ -1432,9 +1444,9 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 			case *postgres.ColumnConditional:
 				pred = cond.Predicate
 				qua = cond.Quantifier
-				lhs = makeColRef(cond.LHSColIdent)
+				lhs = makeColRef(g, cond.LHSColIdent)
 				if !cond.RHSColIdent.IsEmpty() {
-					rhs = makeColRef(cond.RHSColIdent)
+					rhs = makeColRef(g, cond.RHSColIdent)
 				} else if len(cond.RHSLiteral) > 0 {
 					rhs = SQL.Literal{cond.RHSLiteral}
 				}
@@ -1561,18 +1573,18 @@ func makeSQLBetweenPredicate(g *generator, cond *postgres.BetweenConditional) SQ
 	case analysis.IsBetweenAsym, analysis.NotBetweenAsym:
 		predicate.Sym = SQL.ASYMMETRIC
 	}
-	predicate.Predicand = makeColRef(cond.ColIdent)
+	predicate.Predicand = makeColRef(g, cond.ColIdent)
 
 	switch lower := cond.LowerBound.(type) {
 	case *postgres.ColumnConditional:
-		predicate.LowEnd = makeColRef(lower.RHSColIdent)
+		predicate.LowEnd = makeColRef(g, lower.RHSColIdent)
 	case *postgres.FieldConditional:
 		predicate.LowEnd = makeParamSpec(g, lower)
 	}
 
 	switch upper := cond.UpperBound.(type) {
 	case *postgres.ColumnConditional:
-		predicate.HighEnd = makeColRef(upper.RHSColIdent)
+		predicate.HighEnd = makeColRef(g, upper.RHSColIdent)
 	case *postgres.FieldConditional:
 		predicate.HighEnd = makeParamSpec(g, upper)
 	}
@@ -2439,22 +2451,24 @@ func makeRelTypeNode(reltyp analysis.RelType) GO.TypeNode {
 	return GO.Ident{reltyp.Base.Name}
 }
 
-// makeColRef
-func makeColRef(id analysis.ColIdent) SQL.ColumnReference {
+// makeColRef makes a reference to the identified column. The columns that have no
+// qualifier are columns of the query's target relation.
+func makeColRef(g *generator, id analysis.ColIdent) SQL.ColumnReference {
+	if len(id.Qualifier) == 0 {
+		id.Qualifier = g.relQualifier
+	}
 	return SQL.ColumnReference{
 		Qual: id.Qualifier,
 		Name: SQL.Name(id.Name),
 	}
 }
 
-// makeRelColRef makes a reference to a column of the query's target relation. The
-// columns of a slice update must always be qualified as the VALUES list has columns
-// of the same name.
-func makeRelColRef(qs *analysis.QueryStruct, id analysis.ColIdent) SQL.ColumnReference {
-	if len(id.Qualifier) == 0 && isSliceUpdate(qs) {
-		id.Qualifier = `"` + strings.ReplaceAll(qs.Rel.Id.Name, `"`, `""`) + `"`
+// relQualifier returns the qualifier for the columns of the given relation.
+func relQualifier(id analysis.RelIdent) string {
+	if len(id.Alias) > 0 {
+		return id.Alias
 	}
-	return makeColRef(id)
+	return `"` + strings.ReplaceAll(id.Name, `"`, `""`) + `"`
 }
 
 // makeRelIdent
diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 411cbf1..1ee0b1f 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -51,8 +51,6 @@ const (
 	errColumnTextSearchType
 	errColumnWriteConflict
 	errColumnGenerated
-	errColumnAmbiguous
-	errColumnJoinTarget
 	errColumnFieldTypeWrite
 	errColumnFieldTypeRead
 	errColumnFieldComparison
@@ -493,20 +491,6 @@ Column error templates
     {{- template "connection_info" . -}}
 {{ end }}
 
-{{ define "` + errColumnAmbiguous.name() + `" -}}
-{{Wb .Field.File.NameAndLine}}: {{Y "Ambiguous column reference."}}
-    The column "{{R .Col.IdRef}}" referenced in "{{R .Field.Definition}}" is present in more than one of the joined relations.
-    {{Wb "FIX:"}} Qualify the column with the name, or alias, of its relation.
-    {{- template "connection_info" . -}}
-{{ end }}
-
-{{ define "` + errColumnJoinTarget.name() + `" -}}
-{{Wb .Field.File.NameAndLine}}: {{Y "Illegal column reference."}}
-    The column "{{R .Col.IdRef}}" referenced in "{{R .Field.Definition}}" is a column of the target relation. The join conditions of an UPDATE or DELETE cannot reference the target relation.
-    {{Wb "FIX:"}} Move the condition to the "where" struct.
-    {{- template "connection_info" . -}}
-{{ end }}
-
 {{ define "` + errColumnGenerated.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Column always generated."}}
     The value of the column "{{R .Col.Name}}" referenced in "{{R .Field.Definition}}" is {{Wb "GENERATED ALWAYS"}}.
-- 
2.43.0


From 52df24eaf7cfd6ee8474b33709a5bd4561413931 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:46:55 +0000
Subject: [PATCH 80/93] fix: refuse join conditions that cannot reference the
 target relation

The items of an UPDATE's FROM list, and of a DELETE's USING list, cannot
reference the relation that is updated or deleted from.
---
 internal/postgres/errors.go   | 8 ++++++++
 internal/postgres/postgres.go | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 1ee0b1f..986e9cf 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -51,6 +51,7 @@ const (
 	errColumnTextSearchType
 	errColumnWriteConflict
 	errColumnGenerated
+	errColumnJoinTarget
 	errColumnFieldTypeWrite
 	errColumnFieldTypeRead
 	errColumnFieldComparison
@@ -491,6 +492,13 @@ Column error templates
     {{- template "connection_info" . -}}
 {{ end }}
 
+{{ define "` + errColumnJoinTarget.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Illegal column reference."}}
+    The column "{{R .Col.IdRef}}" referenced in "{{R .Field.Definition}}" is a column of the target relation. The join conditions of an UPDATE or DELETE cannot reference the target relation.
+    {{Wb "FIX:"}} Move the condition to the "where" struct.
+    {{- template "connection_info" . -}}
+{{ end }}
+
 {{ define "` + errColumnGenerated.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Column always generated."}}
     The value of the column "{{R .Col.Name}}" referenced in "{{R .Field.Definition}}" is {{Wb "GENERATED ALWAYS"}}.
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 233010c..1885aed 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -653,6 +653,12 @@ func typeCheckQueryJoinStruct(c *checker, qs *analysis.QueryStruct) error {
 				if err := typeCheckColumnConditional(c, cond, rel, dir.RelIdent, dir); err != nil {
 					return err
 				}
+
+				// the FROM and USING lists cannot reference the target relation
+				if q := cond.RHSColIdent.Qualifier; qs.Join.Relation != nil && cond.RHSColumn != nil && (q == "" || q == relIdentKey(c.rid)) {
+					return c.dbError(dbError{Code: errColumnJoinTarget,
+						Col: colInfo{Id: cond.RHSColIdent, Column: cond.RHSColumn}}, dir)
+				}
 				conds[i] = cond
 			default:
 				// NOTE(mkopriva): currently predicates other than
-- 
2.43.0


From 13633205a3f00fb5a6487e7c1819e2a41fa08886 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:56:18 +0000
Subject: [PATCH 81/93] fix: refuse indexes and composite types as relations

---
 internal/postgres/postgres.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 1885aed..fba1ab9 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -2004,7 +2004,8 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 		, ns.nspname
 	FROM pg_class c
 	LEFT JOIN pg_namespace ns ON ns.oid = c.relnamespace
-	WHERE c.oid = to_regclass($1)` //`
+	WHERE c.oid = to_regclass($1)
+	AND c.relkind NOT IN ('i', 'I', 'c')` //`
 	row := db.QueryRow(selectRelationInfo, rid.QualifiedName())
 	if err := row.Scan(&rel.OID, &rel.Name, &rel.RelKind, &rel.Schema); err != nil {
 		if err == sql.ErrNoRows {
-- 
2.43.0


From 6ba3d6a168741677c2001cd92a9dc9dab9726ca6 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:56:18 +0000
Subject: [PATCH 82/93] fix: refuse blank fields that the generated code would
 have to access

---
 internal/analysis/analysis.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 170c119..03a1ae0 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -219,7 +219,7 @@ func analyzeFilterStruct(a *analysis, structType *types.Struct) (*FilterStruct,
 			if tag.Contains("filter", "v2") {
 				implements = typesutil.ImplementsGosqlFilterConstructorV2
 			}
-			if implements(fvar.Type()) {
+			if fvar.Name() != "_" && implements(fvar.Type()) {
 				if err := analyzeFilterConstructorField(a, fvar, ftag); err != nil {
 					return nil, err
 				}
@@ -877,6 +877,7 @@ func analyzeWhereStruct(a *analysis, f *types.Var, tag string) (err error) {
 		items []WhereItem
 		ns    *typesutil.NamedStruct // the struct type of the WhereStruct
 		idx   int                    // keeps track of the field index
+		blank bool                   // indicates that the fields of the struct are inaccessible
 	}
 
 	// root holds the reference to the root level search conditions
@@ -937,6 +938,7 @@ stackloop:
 				loop2.ns = ns
 				loop2.where = new(WhereStruct)
 				loop2.where.FieldName = fvar.Name()
+				loop2.blank = loop.blank || fvar.Name() == "_"
 				loop.items = append(loop.items, loop2.where)
 
 				a.info.FieldMap[loop2.where] = FieldVar{Var: fvar, Tag: ftag}
@@ -1013,6 +1015,10 @@ stackloop:
 				continue
 			}
 
+			if loop.blank {
+				return a.error(errIllegalQueryField, fvar, f.Name(), ftag, "", "")
+			}
+
 			// Check whether the field is supposed to be used to
 			// produce a [NOT] BETWEEN [SYMMETRIC] predicate clause.
 			//
-- 
2.43.0


From db129e6ac64410d0c7afe3b32bafbf04e9e88b8d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:02:04 +0000
Subject: [PATCH 83/93] fix: compare columns only with operators that exist

Columns of the same type were always accepted although not every type has
every operator, IS DISTINCT FROM uses the = operator, and SIMILAR TO uses
the ~ operator.
---
 internal/postgres/enums.go     | 19 +++++++++---------
 internal/postgres/oid/types.go |  5 +++++
 internal/postgres/postgres.go  | 36 +++++++++++++++++++++++++++++++++-
 3 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/internal/postgres/enums.go b/internal/postgres/enums.go
index d0f763c..0ebd132 100644
--- a/internal/postgres/enums.go
+++ b/internal/postgres/enums.go
@@ -24,12 +24,13 @@ const (
 type TypeType string
 
 const (
-	TypeTypeBase      TypeType = "b"
-	TypeTypeComposite TypeType = "c"
-	TypeTypeDomain    TypeType = "d"
-	TypeTypeEnum      TypeType = "e"
-	TypeTypePseudo    TypeType = "p"
-	TypeTypeRange     TypeType = "r"
+	TypeTypeBase       TypeType = "b"
+	TypeTypeComposite  TypeType = "c"
+	TypeTypeDomain     TypeType = "d"
+	TypeTypeEnum       TypeType = "e"
+	TypeTypePseudo     TypeType = "p"
+	TypeTypeRange      TypeType = "r"
+	TypeTypeMultirange TypeType = "m"
 )
 
 // postgres type categories
@@ -90,14 +91,14 @@ var predicateToOprname = map[analysis.Predicate]string{
 	analysis.IsMatchi:    "~*",
 	analysis.NotMatch:    "!~",
 	analysis.NotMatchi:   "!~*",
-	analysis.IsDistinct:  "<>",
+	analysis.IsDistinct:  "=",
 	analysis.NotDistinct: "=",
 	analysis.IsLike:      "~~",
 	analysis.NotLike:     "!~~",
 	analysis.IsILike:     "~~*",
 	analysis.NotILike:    "!~~*",
-	analysis.IsSimilar:   "~~",
-	analysis.NotSimilar:  "!~~",
+	analysis.IsSimilar:   "~",
+	analysis.NotSimilar:  "!~",
 	analysis.IsIn:        "=",
 	analysis.NotIn:       "<>",
 }
diff --git a/internal/postgres/oid/types.go b/internal/postgres/oid/types.go
index 63f1b4a..b87fd2e 100644
--- a/internal/postgres/oid/types.go
+++ b/internal/postgres/oid/types.go
@@ -4,6 +4,11 @@ type OID uint32
 
 const (
 	Any            OID = 2276
+	AnyArray       OID = 2277
+	AnyEnum        OID = 3500
+	AnyMultirange  OID = 4537
+	AnyRange       OID = 3831
+	Record         OID = 2249
 	Bit            OID = 1560
 	BitArr         OID = 1561
 	Bool           OID = 16
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index fba1ab9..d82b204 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1131,7 +1131,7 @@ func typeCheckComparison(c *checker, ltyp *Type, rtyp *Type, pred analysis.Predi
 		rtyp = c.db.catalog.Types[rtyp.Elem]
 	}
 
-	if ltyp.OID == rtyp.OID {
+	if ltyp.OID == rtyp.OID && hasOperator(c, ltyp, predicateToOprname[pred]) {
 		return 0
 	}
 
@@ -1686,6 +1686,40 @@ func checkTypeCoercion(c *checker, target oid.OID, source oid.OID) bool {
 // Find Functions
 //
 
+// hasOperator reports whether or not the named operator can be used to compare two
+// values of the given type, it may do so by using the operators of a type to which
+// the given type can be implicitly cast, or those of a polymorphic type.
+func hasOperator(c *checker, typ *Type, name string) bool {
+	if typ.Type == TypeTypeDomain { // the base type is not known
+		return true
+	}
+
+	oids := []oid.OID{typ.OID}
+	switch {
+	case typ.Category == TypeCategoryArray:
+		oids = append(oids, oid.AnyArray)
+	case typ.Type == TypeTypeEnum:
+		oids = append(oids, oid.AnyEnum)
+	case typ.Type == TypeTypeRange:
+		oids = append(oids, oid.AnyRange)
+	case typ.Type == TypeTypeMultirange:
+		oids = append(oids, oid.AnyMultirange)
+	case typ.Type == TypeTypeComposite:
+		oids = append(oids, oid.Record)
+	}
+	for key, cast := range c.db.catalog.Casts {
+		if key.Source == typ.OID && cast.Context == CastContextImplicit {
+			oids = append(oids, key.Target)
+		}
+	}
+	for _, id := range oids {
+		if _, ok := c.db.catalog.Operators[OpKey{Left: id, Right: id, Name: name}]; ok {
+			return true
+		}
+	}
+	return false
+}
+
 // findColumn finds and returns the *Column identified by the given ColIdent.
 // If the relation denoted by the column's qualifier doesn't exist, or if the
 // relation exists but the column itself is not present in that relation an
-- 
2.43.0


From 900c2c69c1a859c358db11fa887080386e356eab Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:06:39 +0000
Subject: [PATCH 84/93] fix: load the types of all schemas

A relation could not be used if one of its columns is of a type that is not
visible in the search path, and the error that reports such a column could
not be rendered. Types that are not known no longer cause a panic.
---
 internal/postgres/errors.go   |  2 +-
 internal/postgres/postgres.go | 21 ++++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 986e9cf..ce70d05 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -388,7 +388,7 @@ Relation error templates
 {{ define "` + errRelationColumnUnknownType.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Unknown column type."}}
     {{W "github.com/frk/gosql"}} is unable to retrieve the type information for column "{{R .Col.Name}}" in relation "{{R .Rel.Ref}}".
-    The column type's OID: {{R .Col.TypeOID}}
+    The column type's OID: {{R (printf "%d" .Col.TypeOID)}}
     Please consider opening an issue if the error persists.
 {{ end }}
 
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index d82b204..91e0bc1 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1128,7 +1128,11 @@ func typeCheckComparison(c *checker, ltyp *Type, rtyp *Type, pred analysis.Predi
 			}
 			return errPredicateOperandQuantifier
 		}
-		rtyp = c.db.catalog.Types[rtyp.Elem]
+		elem, ok := c.db.catalog.Types[rtyp.Elem]
+		if !ok { // e.g. a domain over an array type
+			return errColumnComparison
+		}
+		rtyp = elem
 	}
 
 	if ltyp.OID == rtyp.OID && hasOperator(c, ltyp, predicateToOprname[pred]) {
@@ -1821,8 +1825,7 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 		, t.typispreferred
 		, t.typelem
 	FROM pg_type t
-	WHERE pg_catalog.pg_type_is_visible(t.oid)
-	AND t.typcategory <> 'P'` //`
+	WHERE t.typcategory <> 'P'` //`
 	rows, err := db.Query(selectTypes)
 	if err != nil {
 		return nil, db.dbError(dbError{Code: errCatalogTypeGet, Err: err})
@@ -2273,7 +2276,11 @@ func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
 	if err := row.Scan(&typoid); err != nil {
 		return nil, errPredicateLiteralExpr
 	}
-	return c.db.catalog.Types[typoid], 0
+	typ, ok := c.db.catalog.Types[typoid]
+	if !ok {
+		return nil, errPredicateLiteralExpr
+	}
+	return typ, 0
 }
 
 // isLength1Type reports whether or not the given column's type
@@ -2281,7 +2288,11 @@ func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
 func isLength1Type(c *checker, col *Column) bool {
 	typ := col.Type
 	if typ.Category == TypeCategoryArray {
-		typ = c.db.catalog.Types[typ.Elem]
+		elem, ok := c.db.catalog.Types[typ.Elem]
+		if !ok { // e.g. a domain over an array type
+			return false
+		}
+		typ = elem
 	}
 
 	if typ.Category == TypeCategoryBitstring {
-- 
2.43.0


From 2763dce2c97efb6ed74d7bd061e1338f38159be4 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:07:28 +0000
Subject: [PATCH 85/93] fix: treat the columns of partitioned and foreign
 tables as nullable

NULLs could be neither read into, nor written from, zero values if the
column belonged to a partitioned, or a foreign, table.
---
 internal/postgres/enums.go | 6 ++++++
 internal/postgres/types.go | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/enums.go b/internal/postgres/enums.go
index 0ebd132..cfd35a6 100644
--- a/internal/postgres/enums.go
+++ b/internal/postgres/enums.go
@@ -20,6 +20,12 @@ const (
 	RelKindPartitionedIndex RelKind = "I"
 )
 
+// isTable reports whether or not k is the kind of relation whose columns carry
+// the NOT NULL constraint.
+func (k RelKind) isTable() bool {
+	return k == RelKindOrdinaryTable || k == RelKindPartitionedTable || k == RelKindForeignTable
+}
+
 // postgres type types
 type TypeType string
 
diff --git a/internal/postgres/types.go b/internal/postgres/types.go
index 87cd7ce..6ee03ff 100644
--- a/internal/postgres/types.go
+++ b/internal/postgres/types.go
@@ -397,7 +397,7 @@ func (t *Type) GetNameFmt() string {
 }
 
 func (c *Column) IsNULLable() bool {
-	return c.Relation != nil && c.Relation.RelKind == RelKindOrdinaryTable &&
+	return c.Relation != nil && c.Relation.RelKind.isTable() &&
 		c.HasNotNull == false
 }
 
-- 
2.43.0


From 87b1499c563873c809db44bfe35ffad03936547f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:21:22 +0000
Subject: [PATCH 86/93] fix: build conflict targets from any definition of an
 index

---
 internal/postgres/postgres.go | 71 ++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 38 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 91e0bc1..71200e5 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -2329,54 +2329,49 @@ toploop:
 	return true
 }
 
-var rxUsingMethod = regexp.MustCompile(`(?i:\susing\s)`)
+var rxIndexKeyOrder = regexp.MustCompile(`(?: ASC| DESC)?(?: NULLS (?:FIRST|LAST))?$`)
 
-// parseIndexExpr extracts the index_expression from a CREATE INDEX command.
+// parseIndexExpr extracts the index_expression from a CREATE INDEX command, without the
+// sort order of its keys which is not allowed in the conflict target of an INSERT.
 // e.g. CREATE INDEX index_name ON table_name USING method_name (index_expression);
 func parseIndexExpr(s string) (expr string) {
-	loc := rxUsingMethod.FindStringIndex(s)
-	if len(loc) > 1 {
-		s = s[loc[1]:]
-	}
-	if i := strings.Index(s, "("); i < 0 {
-		return
-	} else {
-		s = s[i+1:]
-	}
-
 	var (
-		r        rune
-		nested   int  // number nested parentheses
-		position int  // position in the input
-		quoted   bool // quoted text in the input
-		escaped  bool // escaped quote `''` in quoted text
+		keys   []string // the keys of the index
+		start  int      // start position of the current key
+		nested int      // number nested parentheses
+		quote  byte     // the closing quote, if in quoted text
 	)
-	for position, r = range s {
-		if !quoted {
-			if r == '(' {
-				nested += 1 // nest
-			} else if r == ')' {
-				if nested == 0 {
-					break // done
-				}
-				nested -= 1 // unnest
-			} else if r == '\'' {
-				quoted = true
+
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		if quote != 0 {
+			if c == quote { // NOTE an escaped quote closes, and at once reopens, the quoted text
+				quote = 0
 			}
-		} else {
-			if r == '\'' && len(s) > position {
-				if s[position+1] == '\'' {
-					escaped = true
-				} else if escaped {
-					escaped = false
-				} else {
-					quoted = false
+			continue
+		}
+
+		switch c {
+		case '\'', '"':
+			quote = c
+		case '(':
+			if nested += 1; nested == 1 {
+				start = i + 1
+			}
+		case ')', ',':
+			if nested == 1 {
+				key := strings.TrimSpace(s[start:i])
+				keys = append(keys, rxIndexKeyOrder.ReplaceAllString(key, ""))
+				start = i + 1
+			}
+			if c == ')' {
+				if nested -= 1; nested == 0 {
+					return strings.Join(keys, ", ")
 				}
 			}
 		}
 	}
-
-	return s[:position]
+	return strings.Join(keys, ", ")
 }
 
 type int2vec []int16 // helper type
-- 
2.43.0


From af6521a2cd39066ae2ec2b5ab3dcc197c2f1c38a Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:21:46 +0000
Subject: [PATCH 87/93] fix: tell the key columns of an index from its included
 columns

---
 internal/postgres/postgres.go | 6 ++++--
 internal/postgres/types.go    | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 71200e5..fbe4e82 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1209,7 +1209,7 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 
 		var exists, isunique bool
 		for _, ind := range c.rel.Indexes {
-			if !matchNumbers(ind.Key, attnums) {
+			if !matchNumbers(ind.Key[:ind.NumKeyAtts], attnums) {
 				continue
 			}
 			exists = true
@@ -2068,7 +2068,7 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 	LEFT JOIN pg_index i ON (
 		i.indisprimary
 		AND i.indrelid = a.attrelid
-		AND a.attnum = ANY(i.indkey)
+		AND a.attnum = ANY((i.indkey::int2[])[0:COALESCE((to_jsonb(i)->>'indnkeyatts')::int, i.indnatts) - 1])
 	)
 	WHERE a.attrelid = $1
 	AND a.attnum > 0
@@ -2160,6 +2160,7 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 		c.oid
 		, c.relname
 		, i.indnatts
+		, COALESCE((to_jsonb(i)->>'indnkeyatts')::int, i.indnatts)
 		, i.indisunique
 		, i.indisprimary
 		, i.indisexclusion
@@ -2185,6 +2186,7 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 			&ind.OID,
 			&ind.Name,
 			&ind.NumAtts,
+			&ind.NumKeyAtts,
 			&ind.IsUnique,
 			&ind.IsPrimary,
 			&ind.IsExclusion,
diff --git a/internal/postgres/types.go b/internal/postgres/types.go
index 6ee03ff..701b23c 100644
--- a/internal/postgres/types.go
+++ b/internal/postgres/types.go
@@ -270,6 +270,9 @@ type (
 		// The total number of columns in the index; this number includes
 		// both key and included attributes.
 		NumAtts int
+		// The number of key columns in the index; this number does not
+		// include the included attributes.
+		NumKeyAtts int
 		// If true, this is a unique index.
 		IsUnique bool
 		// If true, this index represents the primary key of the table.
-- 
2.43.0


From bd106dacf4f3e7bd8b4b6cfedd0a7a7edb6743eb Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:21:51 +0000
Subject: [PATCH 88/93] fix: refuse deferrable constraints as conflict targets

---
 internal/postgres/errors.go   |  6 +++---
 internal/postgres/postgres.go | 12 +++++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index ce70d05..e954d89 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -621,7 +621,7 @@ On Conflict error templates
 
 {{ define "` + errOnConflictIndexNotUnique.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Index not unique."}}
-    The index "{{R .Field.SqlTagFirst}}" referenced by "{{R .Field.Definition}}" is not unique / primary key.
+    The index "{{R .Field.SqlTagFirst}}" referenced by "{{R .Field.Definition}}" is not an immediately enforced unique / primary key.
     - directive "{{W .Field.TypeShort}}" requires an index of type: "{{W "unique"}}", or "{{W "primary key"}}".
 {{ end }}
 
@@ -633,7 +633,7 @@ On Conflict error templates
 
 {{ define "` + errOnConflictIndexColumnsNotUnique.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Column index not unique."}}
-    The columns "{{R .Field.SqlTag}}" referenced by "{{R .Field.Definition}}" match no unique / primary key index.
+    The columns "{{R .Field.SqlTag}}" referenced by "{{R .Field.Definition}}" match no immediately enforced unique / primary key index.
     - directive "{{W .Field.TypeShort}}" requires the column(s) that match those of an index of type: "{{W "unique"}}", or "{{W "primary key"}}".
 {{ end }}
 
@@ -645,7 +645,7 @@ On Conflict error templates
 
 {{ define "` + errOnConflictConstraintNotUnique.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Constraint not unique."}}
-    The constraint "{{R .Field.SqlTagFirst}}" referenced by "{{R .Field.Definition}}" is not unique / primary key.
+    The constraint "{{R .Field.SqlTagFirst}}" referenced by "{{R .Field.Definition}}" is not an immediately enforced unique / primary key.
     - directive "{{W .Field.TypeShort}}" requires a constraint of type: "{{W "unique"}}", or "{{W "primary key"}}".
 {{ end }}
 
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index fbe4e82..56e2ece 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1214,7 +1214,7 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 			}
 			exists = true
 
-			if !ind.IsUnique && !ind.IsPrimary {
+			if !isArbiter(ind) {
 				continue
 			}
 			isunique = true
@@ -1241,7 +1241,7 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 		if ind == nil {
 			return c.dbError(dbError{Code: errOnConflictIndexUnknown,
 				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Index)
-		} else if !ind.IsUnique && !ind.IsPrimary {
+		} else if !isArbiter(ind) {
 			return c.dbError(dbError{Code: errOnConflictIndexNotUnique,
 				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Index)
 		}
@@ -1258,7 +1258,7 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 		if con == nil {
 			return c.dbError(dbError{Code: errOnConflictConstraintUnknown,
 				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Constraint)
-		} else if con.Type != ConstraintTypePKey && con.Type != ConstraintTypeUnique {
+		} else if (con.Type != ConstraintTypePKey && con.Type != ConstraintTypeUnique) || con.IsDeferrable {
 			return c.dbError(dbError{Code: errOnConflictConstraintNotUnique,
 				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Constraint)
 		}
@@ -2305,6 +2305,12 @@ func isLength1Type(c *checker, col *Column) bool {
 	return false
 }
 
+// isArbiter reports whether or not the given index can be used to infer conflicts,
+// the index of a deferrable constraint, which isn't enforced immediately, can not.
+func isArbiter(ind *Index) bool {
+	return (ind.IsUnique || ind.IsPrimary) && ind.IsImmediate
+}
+
 func relIdentKey(rid analysis.RelIdent) string {
 	if len(rid.Alias) > 0 {
 		return rid.Alias
-- 
2.43.0


From 09a563de37703a99b02c5cd3e18d76c494c1c605 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:42:24 +0000
Subject: [PATCH 89/93] fix: keep the alias of the records of an UPDATE apart
 from those of its relations

---
 internal/generator/generator.go | 35 ++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 8a5e5d5..bd72ab7 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -326,7 +326,7 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 		if qs.IsUpdateSlice() {
 			col := SQL.ColumnIdent{}
 			col.Name = SQL.Name(fw.Column.Name)
-			col.Qual = "x"
+			col.Qual = valuesListAlias(qs)
 			g.updateCols = append(g.updateCols, col)
 
 			var expr SQL.ValueExpr
@@ -1123,7 +1123,7 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 			}
 		}
 		columns = append(columns, g.inputColsPKeys...)
-		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
+		alias := SQL.ValuesListAliasPartial{Alias: valuesListAlias(qs), Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
 		tail.Returning = SQL.ReturningClause(g.outputVals)
 		g.sqlTailNode = SQL.NodeList{alias, tail}
@@ -1337,7 +1337,7 @@ func buildSQLWhereClause(g *generator, qs *analysis.QueryStruct) {
 			predicate.RPredicand = makeParamSpec(g, fw.Field)
 
 			if qs.Rel.Type.IsSlice {
-				col := SQL.ColumnIdent{Qual: "x", Name: SQL.Name(fw.ColIdent.Name)}
+				col := SQL.ColumnIdent{Qual: valuesListAlias(qs), Name: SQL.Name(fw.ColIdent.Name)}
 				predicate.RPredicand = SQL.CastExpr{Expr: col, Type: fw.Column.Type.NameFmt}
 			}
 
@@ -2471,6 +2471,35 @@ func relQualifier(id analysis.RelIdent) string {
 	return `"` + strings.ReplaceAll(id.Name, `"`, `""`) + `"`
 }
 
+// valuesListAlias returns the alias for the list of records that is joined with the
+// target of an UPDATE, one that none of the relations in the query goes by.
+func valuesListAlias(qs *analysis.QueryStruct) string {
+	ids := []analysis.RelIdent{qs.Rel.Id}
+	if qs.Join != nil {
+		if qs.Join.Relation != nil {
+			ids = append(ids, qs.Join.Relation.RelIdent)
+		}
+		for _, d := range qs.Join.Directives {
+			ids = append(ids, d.RelIdent)
+		}
+	}
+
+	used := make(map[string]bool)
+	for _, id := range ids {
+		if len(id.Alias) > 0 {
+			used[strings.ToLower(id.Alias)] = true
+		} else {
+			used[id.Name] = true
+		}
+	}
+
+	alias := "x"
+	for used[alias] {
+		alias += "x"
+	}
+	return alias
+}
+
 // makeRelIdent
 func makeRelIdent(id analysis.RelIdent) SQL.Ident {
 	return SQL.Ident{
-- 
2.43.0


From 573d6b4f1ad43839da3a67fb94bab01ad8ab3d42 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:06:59 +0000
Subject: [PATCH 90/93] fix: count the methods of embedded interfaces among
 those of an iterator

---
 internal/analysis/analysis.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 03a1ae0..febcc4b 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -754,15 +754,20 @@ func analyzeTypeInfoRec(a *analysis, tt types.Type, outer []*types.Named) (typ T
 
 // analyzeIteratorInterface [ ... ]
 func analyzeIteratorInterface(a *analysis, rt *RelType, iface *types.Interface, named *types.Named) (out *types.Named, isValid bool) {
-	if iface.NumExplicitMethods() != 1 {
+	if iface.NumMethods() != 1 {
 		return nil, false
 	}
 
-	mth := iface.ExplicitMethod(0)
+	mth := iface.Method(0)
 	if !isAccessible(a, mth, named) {
 		return nil, false
 	}
 
+	// An unexported method may also come from an embedded interface.
+	if !mth.Exported() && mth.Pkg().Path() != a.pkgPath {
+		return nil, false
+	}
+
 	sig := mth.Type().(*types.Signature)
 	out, isValid = analyzeIteratorFunction(a, rt, sig)
 	if !isValid {
@@ -803,8 +808,8 @@ func analyzeIteratorFunction(a *analysis, rt *RelType, sig *types.Signature) (ou
 func BaseTypeOf(typ types.Type) types.Type {
 	switch T := typ.Underlying().(type) {
 	case *types.Interface:
-		if T.NumExplicitMethods() == 1 {
-			typ = T.ExplicitMethod(0).Type().(*types.Signature).Params().At(0).Type()
+		if T.NumMethods() == 1 {
+			typ = T.Method(0).Type().(*types.Signature).Params().At(0).Type()
 		}
 	case *types.Signature:
 		typ = T.Params().At(0).Type()
-- 
2.43.0


From 44bd12a6dcf6a7de477e1dfa0f92d626f619202a Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:51:48 +0000
Subject: [PATCH 91/93] fix: skip the unexported fields of structs declared in
 other packages however they are reached

---
 internal/analysis/analysis.go | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index febcc4b..57ee02e 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -423,7 +423,7 @@ func analyzeQueryStructField(a *analysis, f *types.Var, tag string) error {
 	}
 
 	// if no match by field name, look for specific field types
-	if isAccessible(a, f, a.named) {
+	if isAccessible(a, f) {
 		switch {
 		case isFilterType(f.Type()):
 			if err := analyzeFilterField(a, f, tag); err != nil {
@@ -580,8 +580,8 @@ stackloop:
 				sqltag == "-" ||
 				// - has blank name, i.e. it's practically inaccessible
 				fvar.Name() == "_" ||
-				// - it's unexported and the field's struct type is imported
-				(!fvar.Exported() && loop.typ.IsImported) {
+				// - it's unexported and declared in an imported package
+				!isAccessible(a, fvar) {
 				continue
 			}
 
@@ -759,12 +759,7 @@ func analyzeIteratorInterface(a *analysis, rt *RelType, iface *types.Interface,
 	}
 
 	mth := iface.Method(0)
-	if !isAccessible(a, mth, named) {
-		return nil, false
-	}
-
-	// An unexported method may also come from an embedded interface.
-	if !mth.Exported() && mth.Pkg().Path() != a.pkgPath {
+	if !isAccessible(a, mth) {
 		return nil, false
 	}
 
@@ -908,10 +903,10 @@ stackloop:
 				continue
 			}
 
-			// Skip the field if it's unexported and the ns.Struct's
-			// type is imported. Unless it is one of the directive
+			// Skip the field if it's unexported and declared in
+			// an imported package. Unless it is one of the directive
 			// fields that do not require direct access at runtime.
-			if fvar.Name() != "_" && !isAccessible(a, fvar, ns.Named) {
+			if fvar.Name() != "_" && !isAccessible(a, fvar) {
 				continue
 			}
 
@@ -1066,7 +1061,7 @@ stackloop:
 						}
 						a.info.FieldMap[item] = FieldVar{Var: fvar, Tag: ftag}
 
-					} else if isAccessible(a, fvar, ns.Named) {
+					} else if isAccessible(a, fvar) {
 						item := new(BetweenStructField)
 						item.Name = fvar.Name()
 						item.Type, _ = analyzeTypeInfo(a, fvar.Type())
@@ -2266,15 +2261,18 @@ func isImportedType(a *analysis, named *types.Named) bool {
 }
 
 // isAccessible reports whether or not the given value is accessible from
-// the package in which the target of the analysis is declared.
-func isAccessible(a *analysis, x exportable, named *types.Named) bool {
-	return x.Name() != "_" && (x.Exported() || !isImportedType(a, named))
+// the package in which the target of the analysis is declared. That depends
+// on the package that declares the value itself, which may be another one than
+// that of the type the value is reached through, and such a type may be unnamed.
+func isAccessible(a *analysis, x exportable) bool {
+	return x.Name() != "_" && (x.Exported() || x.Pkg().Path() == a.pkgPath)
 }
 
 // exportable is implemented by both types.Var and types.Func.
 type exportable interface {
 	Name() string
 	Exported() bool
+	Pkg() *types.Package
 }
 
 // isIntegerType reports whether or not the given type is one of the basic (un)signed integer types.
-- 
2.43.0


From c55026e92b1d0a6fd7c13c76fade30a88fb13399 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:53:00 +0000
Subject: [PATCH 92/93] fix: refuse query fields that the generated code cannot
 access

---
 internal/analysis/analysis.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 57ee02e..3583c9f 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -349,6 +349,11 @@ func analyzeQueryStructRelField(a *analysis, f *types.Var, ftag, reltag string)
 	a.query.Rel.FieldName = f.Name()
 	a.query.Rel.Id = rid
 
+	// The generated code has to be able to access the rel field.
+	if f.Name() != "_" && !isAccessible(a, f) {
+		return a.error(errIllegalQueryField, f, "", ftag, "", "")
+	}
+
 	switch fname := strings.ToLower(a.query.Rel.FieldName); {
 	default:
 		if err := analyzeRelType(a, &a.query.Rel.Type, f); err != nil {
@@ -419,6 +424,13 @@ func analyzeQueryStructField(a *analysis, f *types.Var, tag string) error {
 		"rowsaffected": analyzeRowsAffectedField,
 	}
 	if afunc, ok := analyzers[tolower(f.Name())]; ok {
+		switch tolower(f.Name()) {
+		case "where", "result", "limit", "offset", "rowsaffected":
+			// The generated code has to be able to access these.
+			if !isAccessible(a, f) {
+				return a.error(errIllegalQueryField, f, "", tag, "", "")
+			}
+		}
 		return afunc(a, f, tag)
 	}
 
-- 
2.43.0


From e6d89ef98b414af551893772b31baa2941f15cbc Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:53:07 +0000
Subject: [PATCH 93/93] fix: separate the VALUES list of a slice update from
 the relations of its From block

---
 internal/generator/generator.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index bd72ab7..47f1ead 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -13,6 +13,7 @@ import (
 	"github.com/frk/gosql/internal/postgres/oid"
 	"github.com/frk/gosql/internal/typesutil"
 
+	"github.com/frk/ast"
 	GO "github.com/frk/ast/golang"
 	SQL "github.com/frk/ast/sqlang"
 )
@@ -1097,6 +1098,18 @@ func buildSQLInsertStatement(g *generator, qs *analysis.QueryStruct) {
 	g.sqlMainNode = stmt
 }
 
+// valuesListItem is the opening of a VALUES list that follows
+// another item of the FROM clause.
+type valuesListItem struct {
+	SQL.ValuesListClausePartial
+}
+
+// Walk implements the SQL.Node interface.
+func (v valuesListItem) Walk(w *ast.Writer) {
+	w.Write(", ")
+	v.ValuesListClausePartial.Walk(w)
+}
+
 // buildSQLUpdateStatement builds an SQL.UpdateStatement.
 func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	stmt := SQL.UpdateStatement{}
@@ -1113,7 +1126,11 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	if qs.Rel.Type.IsSlice {
-		stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
+		if qs.Join != nil {
+			stmt.Head.From.List = append(stmt.Head.From.List, valuesListItem{})
+		} else {
+			stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
+		}
 
 		// columns set to DEFAULT have no counterpart in the VALUES list
 		columns := SQL.NameGroup{}
-- 
2.43.0

