// Code generated from the exported functions of pgsql; see lib/genreg.sh. DO NOT EDIT.
package pgconv

import "github.com/frk/gosql/pgsql"

// Registry lists every exported converter constructor of the library.
var Registry = map[string]interface{}{
	"AnyToEmptyInterface":                     pgsql.AnyToEmptyInterface,
	"BPCharArrayFromByteSlice":                pgsql.BPCharArrayFromByteSlice,
	"BPCharArrayFromRuneSlice":                pgsql.BPCharArrayFromRuneSlice,
	"BPCharArrayFromString":                   pgsql.BPCharArrayFromString,
	"BPCharArrayFromStringSlice":              pgsql.BPCharArrayFromStringSlice,
	"BPCharArrayToByteSlice":                  pgsql.BPCharArrayToByteSlice,
	"BPCharArrayToRuneSlice":                  pgsql.BPCharArrayToRuneSlice,
	"BPCharArrayToString":                     pgsql.BPCharArrayToString,
	"BPCharArrayToStringSlice":                pgsql.BPCharArrayToStringSlice,
	"BPCharFromByte":                          pgsql.BPCharFromByte,
	"BPCharFromRune":                          pgsql.BPCharFromRune,
	"BPCharToByte":                            pgsql.BPCharToByte,
	"BPCharToRune":                            pgsql.BPCharToRune,
	"BitArrayFromBoolSlice":                   pgsql.BitArrayFromBoolSlice,
	"BitArrayFromUint8Slice":                  pgsql.BitArrayFromUint8Slice,
	"BitArrayFromUintSlice":                   pgsql.BitArrayFromUintSlice,
	"BitArrayToBoolSlice":                     pgsql.BitArrayToBoolSlice,
	"BitArrayToUint8Slice":                    pgsql.BitArrayToUint8Slice,
	"BitArrayToUintSlice":                     pgsql.BitArrayToUintSlice,
	"BitFromBool":                             pgsql.BitFromBool,
	"BoolArrayFromBoolSlice":                  pgsql.BoolArrayFromBoolSlice,
	"BoolArrayToBoolSlice":                    pgsql.BoolArrayToBoolSlice,
	"BoxArrayFromFloat64Array2Array2Slice":    pgsql.BoxArrayFromFloat64Array2Array2Slice,
	"BoxArrayToFloat64Array2Array2Slice":      pgsql.BoxArrayToFloat64Array2Array2Slice,
	"BoxFromFloat64Array2Array2":              pgsql.BoxFromFloat64Array2Array2,
	"BoxToFloat64Array2Array2":                pgsql.BoxToFloat64Array2Array2,
	"ByteaArrayFromByteSliceSlice":            pgsql.ByteaArrayFromByteSliceSlice,
	"ByteaArrayFromStringSlice":               pgsql.ByteaArrayFromStringSlice,
	"ByteaArrayToByteSliceSlice":              pgsql.ByteaArrayToByteSliceSlice,
	"ByteaArrayToStringSlice":                 pgsql.ByteaArrayToStringSlice,
	"CIDRArrayFromIPNetSlice":                 pgsql.CIDRArrayFromIPNetSlice,
	"CIDRArrayToIPNetSlice":                   pgsql.CIDRArrayToIPNetSlice,
	"CIDRFromIPNet":                           pgsql.CIDRFromIPNet,
	"CIDRToIPNet":                             pgsql.CIDRToIPNet,
	"CharArrayFromByteSlice":                  pgsql.CharArrayFromByteSlice,
	"CharArrayFromRuneSlice":                  pgsql.CharArrayFromRuneSlice,
	"CharArrayFromString":                     pgsql.CharArrayFromString,
	"CharArrayFromStringSlice":                pgsql.CharArrayFromStringSlice,
	"CharArrayToByteSlice":                    pgsql.CharArrayToByteSlice,
	"CharArrayToRuneSlice":                    pgsql.CharArrayToRuneSlice,
	"CharArrayToString":                       pgsql.CharArrayToString,
	"CharArrayToStringSlice":                  pgsql.CharArrayToStringSlice,
	"CharFromByte":                            pgsql.CharFromByte,
	"CharFromRune":                            pgsql.CharFromRune,
	"CharToByte":                              pgsql.CharToByte,
	"CharToRune":                              pgsql.CharToRune,
	"DateArrayFromTimeSlice":                  pgsql.DateArrayFromTimeSlice,
	"DateArrayToTimeSlice":                    pgsql.DateArrayToTimeSlice,
	"DateRangeArrayFromTimeArray2Slice":       pgsql.DateRangeArrayFromTimeArray2Slice,
	"DateRangeArrayToTimeArray2Slice":         pgsql.DateRangeArrayToTimeArray2Slice,
	"DateRangeFromTimeArray2":                 pgsql.DateRangeFromTimeArray2,
	"DateRangeToTimeArray2":                   pgsql.DateRangeToTimeArray2,
	"DateToByteSlice":                         pgsql.DateToByteSlice,
	"DateToString":                            pgsql.DateToString,
	"DateToTime":                              pgsql.DateToTime,
	"Float4ArrayFromFloat32Slice":             pgsql.Float4ArrayFromFloat32Slice,
	"Float4ArrayFromFloat64Slice":             pgsql.Float4ArrayFromFloat64Slice,
	"Float4ArrayToFloat32Slice":               pgsql.Float4ArrayToFloat32Slice,
	"Float4ArrayToFloat64Slice":               pgsql.Float4ArrayToFloat64Slice,
	"Float8ArrayFromFloat32Slice":             pgsql.Float8ArrayFromFloat32Slice,
	"Float8ArrayFromFloat64Slice":             pgsql.Float8ArrayFromFloat64Slice,
	"Float8ArrayToFloat32Slice":               pgsql.Float8ArrayToFloat32Slice,
	"Float8ArrayToFloat64Slice":               pgsql.Float8ArrayToFloat64Slice,
	"HStoreArrayFromNullStringMapSlice":       pgsql.HStoreArrayFromNullStringMapSlice,
	"HStoreArrayFromStringMapSlice":           pgsql.HStoreArrayFromStringMapSlice,
	"HStoreArrayFromStringPtrMapSlice":        pgsql.HStoreArrayFromStringPtrMapSlice,
	"HStoreArrayToNullStringMapSlice":         pgsql.HStoreArrayToNullStringMapSlice,
	"HStoreArrayToStringMapSlice":             pgsql.HStoreArrayToStringMapSlice,
	"HStoreArrayToStringPtrMapSlice":          pgsql.HStoreArrayToStringPtrMapSlice,
	"HStoreFromNullStringMap":                 pgsql.HStoreFromNullStringMap,
	"HStoreFromStringMap":                     pgsql.HStoreFromStringMap,
	"HStoreFromStringPtrMap":                  pgsql.HStoreFromStringPtrMap,
	"HStoreToNullStringMap":                   pgsql.HStoreToNullStringMap,
	"HStoreToStringMap":                       pgsql.HStoreToStringMap,
	"HStoreToStringPtrMap":                    pgsql.HStoreToStringPtrMap,
	"InetArrayFromIPNetSlice":                 pgsql.InetArrayFromIPNetSlice,
	"InetArrayFromIPSlice":                    pgsql.InetArrayFromIPSlice,
	"InetArrayToIPNetSlice":                   pgsql.InetArrayToIPNetSlice,
	"InetArrayToIPSlice":                      pgsql.InetArrayToIPSlice,
	"InetFromIP":                              pgsql.InetFromIP,
	"InetFromIPNet":                           pgsql.InetFromIPNet,
	"InetToIP":                                pgsql.InetToIP,
	"InetToIPNet":                             pgsql.InetToIPNet,
	"Int2ArrayFromFloat32Slice":               pgsql.Int2ArrayFromFloat32Slice,
	"Int2ArrayFromFloat64Slice":               pgsql.Int2ArrayFromFloat64Slice,
	"Int2ArrayFromInt16Slice":                 pgsql.Int2ArrayFromInt16Slice,
	"Int2ArrayFromInt32Slice":                 pgsql.Int2ArrayFromInt32Slice,
	"Int2ArrayFromInt64Slice":                 pgsql.Int2ArrayFromInt64Slice,
	"Int2ArrayFromInt8Slice":                  pgsql.Int2ArrayFromInt8Slice,
	"Int2ArrayFromIntSlice":                   pgsql.Int2ArrayFromIntSlice,
	"Int2ArrayFromUint16Slice":                pgsql.Int2ArrayFromUint16Slice,
	"Int2ArrayFromUint32Slice":                pgsql.Int2ArrayFromUint32Slice,
	"Int2ArrayFromUint64Slice":                pgsql.Int2ArrayFromUint64Slice,
	"Int2ArrayFromUint8Slice":                 pgsql.Int2ArrayFromUint8Slice,
	"Int2ArrayFromUintSlice":                  pgsql.Int2ArrayFromUintSlice,
	"Int2ArrayToFloat32Slice":                 pgsql.Int2ArrayToFloat32Slice,
	"Int2ArrayToFloat64Slice":                 pgsql.Int2ArrayToFloat64Slice,
	"Int2ArrayToInt16Slice":                   pgsql.Int2ArrayToInt16Slice,
	"Int2ArrayToInt32Slice":                   pgsql.Int2ArrayToInt32Slice,
	"Int2ArrayToInt64Slice":                   pgsql.Int2ArrayToInt64Slice,
	"Int2ArrayToInt8Slice":                    pgsql.Int2ArrayToInt8Slice,
	"Int2ArrayToIntSlice":                     pgsql.Int2ArrayToIntSlice,
	"Int2ArrayToUint16Slice":                  pgsql.Int2ArrayToUint16Slice,
	"Int2ArrayToUint32Slice":                  pgsql.Int2ArrayToUint32Slice,
	"Int2ArrayToUint64Slice":                  pgsql.Int2ArrayToUint64Slice,
	"Int2ArrayToUint8Slice":                   pgsql.Int2ArrayToUint8Slice,
	"Int2ArrayToUintSlice":                    pgsql.Int2ArrayToUintSlice,
	"Int2VectorArrayFromFloat32SliceSlice":    pgsql.Int2VectorArrayFromFloat32SliceSlice,
	"Int2VectorArrayFromFloat64SliceSlice":    pgsql.Int2VectorArrayFromFloat64SliceSlice,
	"Int2VectorArrayFromInt16SliceSlice":      pgsql.Int2VectorArrayFromInt16SliceSlice,
	"Int2VectorArrayFromInt32SliceSlice":      pgsql.Int2VectorArrayFromInt32SliceSlice,
	"Int2VectorArrayFromInt64SliceSlice":      pgsql.Int2VectorArrayFromInt64SliceSlice,
	"Int2VectorArrayFromInt8SliceSlice":       pgsql.Int2VectorArrayFromInt8SliceSlice,
	"Int2VectorArrayFromIntSliceSlice":        pgsql.Int2VectorArrayFromIntSliceSlice,
	"Int2VectorArrayFromUint16SliceSlice":     pgsql.Int2VectorArrayFromUint16SliceSlice,
	"Int2VectorArrayFromUint32SliceSlice":     pgsql.Int2VectorArrayFromUint32SliceSlice,
	"Int2VectorArrayFromUint64SliceSlice":     pgsql.Int2VectorArrayFromUint64SliceSlice,
	"Int2VectorArrayFromUint8SliceSlice":      pgsql.Int2VectorArrayFromUint8SliceSlice,
	"Int2VectorArrayFromUintSliceSlice":       pgsql.Int2VectorArrayFromUintSliceSlice,
	"Int2VectorArrayToFloat32SliceSlice":      pgsql.Int2VectorArrayToFloat32SliceSlice,
	"Int2VectorArrayToFloat64SliceSlice":      pgsql.Int2VectorArrayToFloat64SliceSlice,
	"Int2VectorArrayToInt16SliceSlice":        pgsql.Int2VectorArrayToInt16SliceSlice,
	"Int2VectorArrayToInt32SliceSlice":        pgsql.Int2VectorArrayToInt32SliceSlice,
	"Int2VectorArrayToInt64SliceSlice":        pgsql.Int2VectorArrayToInt64SliceSlice,
	"Int2VectorArrayToInt8SliceSlice":         pgsql.Int2VectorArrayToInt8SliceSlice,
	"Int2VectorArrayToIntSliceSlice":          pgsql.Int2VectorArrayToIntSliceSlice,
	"Int2VectorArrayToUint16SliceSlice":       pgsql.Int2VectorArrayToUint16SliceSlice,
	"Int2VectorArrayToUint32SliceSlice":       pgsql.Int2VectorArrayToUint32SliceSlice,
	"Int2VectorArrayToUint64SliceSlice":       pgsql.Int2VectorArrayToUint64SliceSlice,
	"Int2VectorArrayToUint8SliceSlice":        pgsql.Int2VectorArrayToUint8SliceSlice,
	"Int2VectorArrayToUintSliceSlice":         pgsql.Int2VectorArrayToUintSliceSlice,
	"Int2VectorFromFloat32Slice":              pgsql.Int2VectorFromFloat32Slice,
	"Int2VectorFromFloat64Slice":              pgsql.Int2VectorFromFloat64Slice,
	"Int2VectorFromInt16Slice":                pgsql.Int2VectorFromInt16Slice,
	"Int2VectorFromInt32Slice":                pgsql.Int2VectorFromInt32Slice,
	"Int2VectorFromInt64Slice":                pgsql.Int2VectorFromInt64Slice,
	"Int2VectorFromInt8Slice":                 pgsql.Int2VectorFromInt8Slice,
	"Int2VectorFromIntSlice":                  pgsql.Int2VectorFromIntSlice,
	"Int2VectorFromUint16Slice":               pgsql.Int2VectorFromUint16Slice,
	"Int2VectorFromUint32Slice":               pgsql.Int2VectorFromUint32Slice,
	"Int2VectorFromUint64Slice":               pgsql.Int2VectorFromUint64Slice,
	"Int2VectorFromUint8Slice":                pgsql.Int2VectorFromUint8Slice,
	"Int2VectorFromUintSlice":                 pgsql.Int2VectorFromUintSlice,
	"Int2VectorToFloat32Slice":                pgsql.Int2VectorToFloat32Slice,
	"Int2VectorToFloat64Slice":                pgsql.Int2VectorToFloat64Slice,
	"Int2VectorToInt16Slice":                  pgsql.Int2VectorToInt16Slice,
	"Int2VectorToInt32Slice":                  pgsql.Int2VectorToInt32Slice,
	"Int2VectorToInt64Slice":                  pgsql.Int2VectorToInt64Slice,
	"Int2VectorToInt8Slice":                   pgsql.Int2VectorToInt8Slice,
	"Int2VectorToIntSlice":                    pgsql.Int2VectorToIntSlice,
	"Int2VectorToUint16Slice":                 pgsql.Int2VectorToUint16Slice,
	"Int2VectorToUint32Slice":                 pgsql.Int2VectorToUint32Slice,
	"Int2VectorToUint64Slice":                 pgsql.Int2VectorToUint64Slice,
	"Int2VectorToUint8Slice":                  pgsql.Int2VectorToUint8Slice,
	"Int2VectorToUintSlice":                   pgsql.Int2VectorToUintSlice,
	"Int4ArrayFromFloat32Slice":               pgsql.Int4ArrayFromFloat32Slice,
	"Int4ArrayFromFloat64Slice":               pgsql.Int4ArrayFromFloat64Slice,
	"Int4ArrayFromInt16Slice":                 pgsql.Int4ArrayFromInt16Slice,
	"Int4ArrayFromInt32Slice":                 pgsql.Int4ArrayFromInt32Slice,
	"Int4ArrayFromInt64Slice":                 pgsql.Int4ArrayFromInt64Slice,
	"Int4ArrayFromInt8Slice":                  pgsql.Int4ArrayFromInt8Slice,
	"Int4ArrayFromIntSlice":                   pgsql.Int4ArrayFromIntSlice,
	"Int4ArrayFromUint16Slice":                pgsql.Int4ArrayFromUint16Slice,
	"Int4ArrayFromUint32Slice":                pgsql.Int4ArrayFromUint32Slice,
	"Int4ArrayFromUint64Slice":                pgsql.Int4ArrayFromUint64Slice,
	"Int4ArrayFromUint8Slice":                 pgsql.Int4ArrayFromUint8Slice,
	"Int4ArrayFromUintSlice":                  pgsql.Int4ArrayFromUintSlice,
	"Int4ArrayToFloat32Slice":                 pgsql.Int4ArrayToFloat32Slice,
	"Int4ArrayToFloat64Slice":                 pgsql.Int4ArrayToFloat64Slice,
	"Int4ArrayToInt16Slice":                   pgsql.Int4ArrayToInt16Slice,
	"Int4ArrayToInt32Slice":                   pgsql.Int4ArrayToInt32Slice,
	"Int4ArrayToInt64Slice":                   pgsql.Int4ArrayToInt64Slice,
	"Int4ArrayToInt8Slice":                    pgsql.Int4ArrayToInt8Slice,
	"Int4ArrayToIntSlice":                     pgsql.Int4ArrayToIntSlice,
	"Int4ArrayToUint16Slice":                  pgsql.Int4ArrayToUint16Slice,
	"Int4ArrayToUint32Slice":                  pgsql.Int4ArrayToUint32Slice,
	"Int4ArrayToUint64Slice":                  pgsql.Int4ArrayToUint64Slice,
	"Int4ArrayToUint8Slice":                   pgsql.Int4ArrayToUint8Slice,
	"Int4ArrayToUintSlice":                    pgsql.Int4ArrayToUintSlice,
	"Int4RangeArrayFromFloat32Array2Slice":    pgsql.Int4RangeArrayFromFloat32Array2Slice,
	"Int4RangeArrayFromFloat64Array2Slice":    pgsql.Int4RangeArrayFromFloat64Array2Slice,
	"Int4RangeArrayFromInt16Array2Slice":      pgsql.Int4RangeArrayFromInt16Array2Slice,
	"Int4RangeArrayFromInt32Array2Slice":      pgsql.Int4RangeArrayFromInt32Array2Slice,
	"Int4RangeArrayFromInt64Array2Slice":      pgsql.Int4RangeArrayFromInt64Array2Slice,
	"Int4RangeArrayFromInt8Array2Slice":       pgsql.Int4RangeArrayFromInt8Array2Slice,
	"Int4RangeArrayFromIntArray2Slice":        pgsql.Int4RangeArrayFromIntArray2Slice,
	"Int4RangeArrayFromUint16Array2Slice":     pgsql.Int4RangeArrayFromUint16Array2Slice,
	"Int4RangeArrayFromUint32Array2Slice":     pgsql.Int4RangeArrayFromUint32Array2Slice,
	"Int4RangeArrayFromUint64Array2Slice":     pgsql.Int4RangeArrayFromUint64Array2Slice,
	"Int4RangeArrayFromUint8Array2Slice":      pgsql.Int4RangeArrayFromUint8Array2Slice,
	"Int4RangeArrayFromUintArray2Slice":       pgsql.Int4RangeArrayFromUintArray2Slice,
	"Int4RangeArrayToFloat32Array2Slice":      pgsql.Int4RangeArrayToFloat32Array2Slice,
	"Int4RangeArrayToFloat64Array2Slice":      pgsql.Int4RangeArrayToFloat64Array2Slice,
	"Int4RangeArrayToInt16Array2Slice":        pgsql.Int4RangeArrayToInt16Array2Slice,
	"Int4RangeArrayToInt32Array2Slice":        pgsql.Int4RangeArrayToInt32Array2Slice,
	"Int4RangeArrayToInt64Array2Slice":        pgsql.Int4RangeArrayToInt64Array2Slice,
	"Int4RangeArrayToInt8Array2Slice":         pgsql.Int4RangeArrayToInt8Array2Slice,
	"Int4RangeArrayToIntArray2Slice":          pgsql.Int4RangeArrayToIntArray2Slice,
	"Int4RangeArrayToUint16Array2Slice":       pgsql.Int4RangeArrayToUint16Array2Slice,
	"Int4RangeArrayToUint32Array2Slice":       pgsql.Int4RangeArrayToUint32Array2Slice,
	"Int4RangeArrayToUint64Array2Slice":       pgsql.Int4RangeArrayToUint64Array2Slice,
	"Int4RangeArrayToUint8Array2Slice":        pgsql.Int4RangeArrayToUint8Array2Slice,
	"Int4RangeArrayToUintArray2Slice":         pgsql.Int4RangeArrayToUintArray2Slice,
	"Int4RangeFromFloat32Array2":              pgsql.Int4RangeFromFloat32Array2,
	"Int4RangeFromFloat64Array2":              pgsql.Int4RangeFromFloat64Array2,
	"Int4RangeFromInt16Array2":                pgsql.Int4RangeFromInt16Array2,
	"Int4RangeFromInt32Array2":                pgsql.Int4RangeFromInt32Array2,
	"Int4RangeFromInt64Array2":                pgsql.Int4RangeFromInt64Array2,
	"Int4RangeFromInt8Array2":                 pgsql.Int4RangeFromInt8Array2,
	"Int4RangeFromIntArray2":                  pgsql.Int4RangeFromIntArray2,
	"Int4RangeFromUint16Array2":               pgsql.Int4RangeFromUint16Array2,
	"Int4RangeFromUint32Array2":               pgsql.Int4RangeFromUint32Array2,
	"Int4RangeFromUint64Array2":               pgsql.Int4RangeFromUint64Array2,
	"Int4RangeFromUint8Array2":                pgsql.Int4RangeFromUint8Array2,
	"Int4RangeFromUintArray2":                 pgsql.Int4RangeFromUintArray2,
	"Int4RangeToFloat32Array2":                pgsql.Int4RangeToFloat32Array2,
	"Int4RangeToFloat64Array2":                pgsql.Int4RangeToFloat64Array2,
	"Int4RangeToInt16Array2":                  pgsql.Int4RangeToInt16Array2,
	"Int4RangeToInt32Array2":                  pgsql.Int4RangeToInt32Array2,
	"Int4RangeToInt64Array2":                  pgsql.Int4RangeToInt64Array2,
	"Int4RangeToInt8Array2":                   pgsql.Int4RangeToInt8Array2,
	"Int4RangeToIntArray2":                    pgsql.Int4RangeToIntArray2,
	"Int4RangeToUint16Array2":                 pgsql.Int4RangeToUint16Array2,
	"Int4RangeToUint32Array2":                 pgsql.Int4RangeToUint32Array2,
	"Int4RangeToUint64Array2":                 pgsql.Int4RangeToUint64Array2,
	"Int4RangeToUint8Array2":                  pgsql.Int4RangeToUint8Array2,
	"Int4RangeToUintArray2":                   pgsql.Int4RangeToUintArray2,
	"Int8ArrayFromFloat32Slice":               pgsql.Int8ArrayFromFloat32Slice,
	"Int8ArrayFromFloat64Slice":               pgsql.Int8ArrayFromFloat64Slice,
	"Int8ArrayFromInt16Slice":                 pgsql.Int8ArrayFromInt16Slice,
	"Int8ArrayFromInt32Slice":                 pgsql.Int8ArrayFromInt32Slice,
	"Int8ArrayFromInt64Slice":                 pgsql.Int8ArrayFromInt64Slice,
	"Int8ArrayFromInt8Slice":                  pgsql.Int8ArrayFromInt8Slice,
	"Int8ArrayFromIntSlice":                   pgsql.Int8ArrayFromIntSlice,
	"Int8ArrayFromUint16Slice":                pgsql.Int8ArrayFromUint16Slice,
	"Int8ArrayFromUint32Slice":                pgsql.Int8ArrayFromUint32Slice,
	"Int8ArrayFromUint64Slice":                pgsql.Int8ArrayFromUint64Slice,
	"Int8ArrayFromUint8Slice":                 pgsql.Int8ArrayFromUint8Slice,
	"Int8ArrayFromUintSlice":                  pgsql.Int8ArrayFromUintSlice,
	"Int8ArrayToFloat32Slice":                 pgsql.Int8ArrayToFloat32Slice,
	"Int8ArrayToFloat64Slice":                 pgsql.Int8ArrayToFloat64Slice,
	"Int8ArrayToInt16Slice":                   pgsql.Int8ArrayToInt16Slice,
	"Int8ArrayToInt32Slice":                   pgsql.Int8ArrayToInt32Slice,
	"Int8ArrayToInt64Slice":                   pgsql.Int8ArrayToInt64Slice,
	"Int8ArrayToInt8Slice":                    pgsql.Int8ArrayToInt8Slice,
	"Int8ArrayToIntSlice":                     pgsql.Int8ArrayToIntSlice,
	"Int8ArrayToUint16Slice":                  pgsql.Int8ArrayToUint16Slice,
	"Int8ArrayToUint32Slice":                  pgsql.Int8ArrayToUint32Slice,
	"Int8ArrayToUint64Slice":                  pgsql.Int8ArrayToUint64Slice,
	"Int8ArrayToUint8Slice":                   pgsql.Int8ArrayToUint8Slice,
	"Int8ArrayToUintSlice":                    pgsql.Int8ArrayToUintSlice,
	"Int8RangeArrayFromFloat32Array2Slice":    pgsql.Int8RangeArrayFromFloat32Array2Slice,
	"Int8RangeArrayFromFloat64Array2Slice":    pgsql.Int8RangeArrayFromFloat64Array2Slice,
	"Int8RangeArrayFromInt16Array2Slice":      pgsql.Int8RangeArrayFromInt16Array2Slice,
	"Int8RangeArrayFromInt32Array2Slice":      pgsql.Int8RangeArrayFromInt32Array2Slice,
	"Int8RangeArrayFromInt64Array2Slice":      pgsql.Int8RangeArrayFromInt64Array2Slice,
	"Int8RangeArrayFromInt8Array2Slice":       pgsql.Int8RangeArrayFromInt8Array2Slice,
	"Int8RangeArrayFromIntArray2Slice":        pgsql.Int8RangeArrayFromIntArray2Slice,
	"Int8RangeArrayFromUint16Array2Slice":     pgsql.Int8RangeArrayFromUint16Array2Slice,
	"Int8RangeArrayFromUint32Array2Slice":     pgsql.Int8RangeArrayFromUint32Array2Slice,
	"Int8RangeArrayFromUint64Array2Slice":     pgsql.Int8RangeArrayFromUint64Array2Slice,
	"Int8RangeArrayFromUint8Array2Slice":      pgsql.Int8RangeArrayFromUint8Array2Slice,
	"Int8RangeArrayFromUintArray2Slice":       pgsql.Int8RangeArrayFromUintArray2Slice,
	"Int8RangeArrayToFloat32Array2Slice":      pgsql.Int8RangeArrayToFloat32Array2Slice,
	"Int8RangeArrayToFloat64Array2Slice":      pgsql.Int8RangeArrayToFloat64Array2Slice,
	"Int8RangeArrayToInt16Array2Slice":        pgsql.Int8RangeArrayToInt16Array2Slice,
	"Int8RangeArrayToInt32Array2Slice":        pgsql.Int8RangeArrayToInt32Array2Slice,
	"Int8RangeArrayToInt64Array2Slice":        pgsql.Int8RangeArrayToInt64Array2Slice,
	"Int8RangeArrayToInt8Array2Slice":         pgsql.Int8RangeArrayToInt8Array2Slice,
	"Int8RangeArrayToIntArray2Slice":          pgsql.Int8RangeArrayToIntArray2Slice,
	"Int8RangeArrayToUint16Array2Slice":       pgsql.Int8RangeArrayToUint16Array2Slice,
	"Int8RangeArrayToUint32Array2Slice":       pgsql.Int8RangeArrayToUint32Array2Slice,
	"Int8RangeArrayToUint64Array2Slice":       pgsql.Int8RangeArrayToUint64Array2Slice,
	"Int8RangeArrayToUint8Array2Slice":        pgsql.Int8RangeArrayToUint8Array2Slice,
	"Int8RangeArrayToUintArray2Slice":         pgsql.Int8RangeArrayToUintArray2Slice,
	"Int8RangeFromFloat32Array2":              pgsql.Int8RangeFromFloat32Array2,
	"Int8RangeFromFloat64Array2":              pgsql.Int8RangeFromFloat64Array2,
	"Int8RangeFromInt16Array2":                pgsql.Int8RangeFromInt16Array2,
	"Int8RangeFromInt32Array2":                pgsql.Int8RangeFromInt32Array2,
	"Int8RangeFromInt64Array2":                pgsql.Int8RangeFromInt64Array2,
	"Int8RangeFromInt8Array2":                 pgsql.Int8RangeFromInt8Array2,
	"Int8RangeFromIntArray2":                  pgsql.Int8RangeFromIntArray2,
	"Int8RangeFromUint16Array2":               pgsql.Int8RangeFromUint16Array2,
	"Int8RangeFromUint32Array2":               pgsql.Int8RangeFromUint32Array2,
	"Int8RangeFromUint64Array2":               pgsql.Int8RangeFromUint64Array2,
	"Int8RangeFromUint8Array2":                pgsql.Int8RangeFromUint8Array2,
	"Int8RangeFromUintArray2":                 pgsql.Int8RangeFromUintArray2,
	"Int8RangeToFloat32Array2":                pgsql.Int8RangeToFloat32Array2,
	"Int8RangeToFloat64Array2":                pgsql.Int8RangeToFloat64Array2,
	"Int8RangeToInt16Array2":                  pgsql.Int8RangeToInt16Array2,
	"Int8RangeToInt32Array2":                  pgsql.Int8RangeToInt32Array2,
	"Int8RangeToInt64Array2":                  pgsql.Int8RangeToInt64Array2,
	"Int8RangeToInt8Array2":                   pgsql.Int8RangeToInt8Array2,
	"Int8RangeToIntArray2":                    pgsql.Int8RangeToIntArray2,
	"Int8RangeToUint16Array2":                 pgsql.Int8RangeToUint16Array2,
	"Int8RangeToUint32Array2":                 pgsql.Int8RangeToUint32Array2,
	"Int8RangeToUint64Array2":                 pgsql.Int8RangeToUint64Array2,
	"Int8RangeToUint8Array2":                  pgsql.Int8RangeToUint8Array2,
	"Int8RangeToUintArray2":                   pgsql.Int8RangeToUintArray2,
	"JSON":                                    pgsql.JSON,
	"JSONArrayFromByteSliceSlice":             pgsql.JSONArrayFromByteSliceSlice,
	"JSONArrayToByteSliceSlice":               pgsql.JSONArrayToByteSliceSlice,
	"LineArrayFromFloat64Array3Slice":         pgsql.LineArrayFromFloat64Array3Slice,
	"LineArrayToFloat64Array3Slice":           pgsql.LineArrayToFloat64Array3Slice,
	"LineFromFloat64Array3":                   pgsql.LineFromFloat64Array3,
	"LineToFloat64Array3":                     pgsql.LineToFloat64Array3,
	"LsegArrayFromFloat64Array2Array2Slice":   pgsql.LsegArrayFromFloat64Array2Array2Slice,
	"LsegArrayToFloat64Array2Array2Slice":     pgsql.LsegArrayToFloat64Array2Array2Slice,
	"LsegFromFloat64Array2Array2":             pgsql.LsegFromFloat64Array2Array2,
	"LsegToFloat64Array2Array2":               pgsql.LsegToFloat64Array2Array2,
	"MACAddr8ArrayFromHardwareAddrSlice":      pgsql.MACAddr8ArrayFromHardwareAddrSlice,
	"MACAddr8ArrayToHardwareAddrSlice":        pgsql.MACAddr8ArrayToHardwareAddrSlice,
	"MACAddr8FromHardwareAddr":                pgsql.MACAddr8FromHardwareAddr,
	"MACAddr8ToHardwareAddr":                  pgsql.MACAddr8ToHardwareAddr,
	"MACAddrArrayFromHardwareAddrSlice":       pgsql.MACAddrArrayFromHardwareAddrSlice,
	"MACAddrArrayToHardwareAddrSlice":         pgsql.MACAddrArrayToHardwareAddrSlice,
	"MACAddrFromHardwareAddr":                 pgsql.MACAddrFromHardwareAddr,
	"MACAddrToHardwareAddr":                   pgsql.MACAddrToHardwareAddr,
	"MoneyArrayFromInt64Slice":                pgsql.MoneyArrayFromInt64Slice,
	"MoneyArrayToInt64Slice":                  pgsql.MoneyArrayToInt64Slice,
	"MoneyFromInt64":                          pgsql.MoneyFromInt64,
	"MoneyToInt64":                            pgsql.MoneyToInt64,
	"NumRangeArrayFromFloat32Array2Slice":     pgsql.NumRangeArrayFromFloat32Array2Slice,
	"NumRangeArrayFromFloat64Array2Slice":     pgsql.NumRangeArrayFromFloat64Array2Slice,
	"NumRangeArrayFromInt16Array2Slice":       pgsql.NumRangeArrayFromInt16Array2Slice,
	"NumRangeArrayFromInt32Array2Slice":       pgsql.NumRangeArrayFromInt32Array2Slice,
	"NumRangeArrayFromInt64Array2Slice":       pgsql.NumRangeArrayFromInt64Array2Slice,
	"NumRangeArrayFromInt8Array2Slice":        pgsql.NumRangeArrayFromInt8Array2Slice,
	"NumRangeArrayFromIntArray2Slice":         pgsql.NumRangeArrayFromIntArray2Slice,
	"NumRangeArrayFromUint16Array2Slice":      pgsql.NumRangeArrayFromUint16Array2Slice,
	"NumRangeArrayFromUint32Array2Slice":      pgsql.NumRangeArrayFromUint32Array2Slice,
	"NumRangeArrayFromUint64Array2Slice":      pgsql.NumRangeArrayFromUint64Array2Slice,
	"NumRangeArrayFromUint8Array2Slice":       pgsql.NumRangeArrayFromUint8Array2Slice,
	"NumRangeArrayFromUintArray2Slice":        pgsql.NumRangeArrayFromUintArray2Slice,
	"NumRangeArrayToFloat32Array2Slice":       pgsql.NumRangeArrayToFloat32Array2Slice,
	"NumRangeArrayToFloat64Array2Slice":       pgsql.NumRangeArrayToFloat64Array2Slice,
	"NumRangeArrayToInt16Array2Slice":         pgsql.NumRangeArrayToInt16Array2Slice,
	"NumRangeArrayToInt32Array2Slice":         pgsql.NumRangeArrayToInt32Array2Slice,
	"NumRangeArrayToInt64Array2Slice":         pgsql.NumRangeArrayToInt64Array2Slice,
	"NumRangeArrayToInt8Array2Slice":          pgsql.NumRangeArrayToInt8Array2Slice,
	"NumRangeArrayToIntArray2Slice":           pgsql.NumRangeArrayToIntArray2Slice,
	"NumRangeArrayToUint16Array2Slice":        pgsql.NumRangeArrayToUint16Array2Slice,
	"NumRangeArrayToUint32Array2Slice":        pgsql.NumRangeArrayToUint32Array2Slice,
	"NumRangeArrayToUint64Array2Slice":        pgsql.NumRangeArrayToUint64Array2Slice,
	"NumRangeArrayToUint8Array2Slice":         pgsql.NumRangeArrayToUint8Array2Slice,
	"NumRangeArrayToUintArray2Slice":          pgsql.NumRangeArrayToUintArray2Slice,
	"NumRangeFromFloat32Array2":               pgsql.NumRangeFromFloat32Array2,
	"NumRangeFromFloat64Array2":               pgsql.NumRangeFromFloat64Array2,
	"NumRangeFromInt16Array2":                 pgsql.NumRangeFromInt16Array2,
	"NumRangeFromInt32Array2":                 pgsql.NumRangeFromInt32Array2,
	"NumRangeFromInt64Array2":                 pgsql.NumRangeFromInt64Array2,
	"NumRangeFromInt8Array2":                  pgsql.NumRangeFromInt8Array2,
	"NumRangeFromIntArray2":                   pgsql.NumRangeFromIntArray2,
	"NumRangeFromUint16Array2":                pgsql.NumRangeFromUint16Array2,
	"NumRangeFromUint32Array2":                pgsql.NumRangeFromUint32Array2,
	"NumRangeFromUint64Array2":                pgsql.NumRangeFromUint64Array2,
	"NumRangeFromUint8Array2":                 pgsql.NumRangeFromUint8Array2,
	"NumRangeFromUintArray2":                  pgsql.NumRangeFromUintArray2,
	"NumRangeToFloat32Array2":                 pgsql.NumRangeToFloat32Array2,
	"NumRangeToFloat64Array2":                 pgsql.NumRangeToFloat64Array2,
	"NumRangeToInt16Array2":                   pgsql.NumRangeToInt16Array2,
	"NumRangeToInt32Array2":                   pgsql.NumRangeToInt32Array2,
	"NumRangeToInt64Array2":                   pgsql.NumRangeToInt64Array2,
	"NumRangeToInt8Array2":                    pgsql.NumRangeToInt8Array2,
	"NumRangeToIntArray2":                     pgsql.NumRangeToIntArray2,
	"NumRangeToUint16Array2":                  pgsql.NumRangeToUint16Array2,
	"NumRangeToUint32Array2":                  pgsql.NumRangeToUint32Array2,
	"NumRangeToUint64Array2":                  pgsql.NumRangeToUint64Array2,
	"NumRangeToUint8Array2":                   pgsql.NumRangeToUint8Array2,
	"NumRangeToUintArray2":                    pgsql.NumRangeToUintArray2,
	"NumericArrayFromFloat32Slice":            pgsql.NumericArrayFromFloat32Slice,
	"NumericArrayFromFloat64Slice":            pgsql.NumericArrayFromFloat64Slice,
	"NumericArrayFromInt16Slice":              pgsql.NumericArrayFromInt16Slice,
	"NumericArrayFromInt32Slice":              pgsql.NumericArrayFromInt32Slice,
	"NumericArrayFromInt64Slice":              pgsql.NumericArrayFromInt64Slice,
	"NumericArrayFromInt8Slice":               pgsql.NumericArrayFromInt8Slice,
	"NumericArrayFromIntSlice":                pgsql.NumericArrayFromIntSlice,
	"NumericArrayFromUint16Slice":             pgsql.NumericArrayFromUint16Slice,
	"NumericArrayFromUint32Slice":             pgsql.NumericArrayFromUint32Slice,
	"NumericArrayFromUint64Slice":             pgsql.NumericArrayFromUint64Slice,
	"NumericArrayFromUint8Slice":              pgsql.NumericArrayFromUint8Slice,
	"NumericArrayFromUintSlice":               pgsql.NumericArrayFromUintSlice,
	"NumericArrayToFloat32Slice":              pgsql.NumericArrayToFloat32Slice,
	"NumericArrayToFloat64Slice":              pgsql.NumericArrayToFloat64Slice,
	"NumericArrayToInt16Slice":                pgsql.NumericArrayToInt16Slice,
	"NumericArrayToInt32Slice":                pgsql.NumericArrayToInt32Slice,
	"NumericArrayToInt64Slice":                pgsql.NumericArrayToInt64Slice,
	"NumericArrayToInt8Slice":                 pgsql.NumericArrayToInt8Slice,
	"NumericArrayToIntSlice":                  pgsql.NumericArrayToIntSlice,
	"NumericArrayToUint16Slice":               pgsql.NumericArrayToUint16Slice,
	"NumericArrayToUint32Slice":               pgsql.NumericArrayToUint32Slice,
	"NumericArrayToUint64Slice":               pgsql.NumericArrayToUint64Slice,
	"NumericArrayToUint8Slice":                pgsql.NumericArrayToUint8Slice,
	"NumericArrayToUintSlice":                 pgsql.NumericArrayToUintSlice,
	"PathArrayFromFloat64Array2SliceSlice":    pgsql.PathArrayFromFloat64Array2SliceSlice,
	"PathArrayToFloat64Array2SliceSlice":      pgsql.PathArrayToFloat64Array2SliceSlice,
	"PathFromFloat64Array2Slice":              pgsql.PathFromFloat64Array2Slice,
	"PathToFloat64Array2Slice":                pgsql.PathToFloat64Array2Slice,
	"PointArrayFromFloat64Array2Slice":        pgsql.PointArrayFromFloat64Array2Slice,
	"PointArrayToFloat64Array2Slice":          pgsql.PointArrayToFloat64Array2Slice,
	"PointFromFloat64Array2":                  pgsql.PointFromFloat64Array2,
	"PointToFloat64Array2":                    pgsql.PointToFloat64Array2,
	"PolygonArrayFromFloat64Array2SliceSlice": pgsql.PolygonArrayFromFloat64Array2SliceSlice,
	"PolygonArrayToFloat64Array2SliceSlice":   pgsql.PolygonArrayToFloat64Array2SliceSlice,
	"PolygonFromFloat64Array2Slice":           pgsql.PolygonFromFloat64Array2Slice,
	"PolygonToFloat64Array2Slice":             pgsql.PolygonToFloat64Array2Slice,
	"TSQueryArrayFromByteSliceSlice":          pgsql.TSQueryArrayFromByteSliceSlice,
	"TSQueryArrayFromStringSlice":             pgsql.TSQueryArrayFromStringSlice,
	"TSQueryArrayToByteSliceSlice":            pgsql.TSQueryArrayToByteSliceSlice,
	"TSQueryArrayToStringSlice":               pgsql.TSQueryArrayToStringSlice,
	"TSVectorArrayFromByteSliceSliceSlice":    pgsql.TSVectorArrayFromByteSliceSliceSlice,
	"TSVectorArrayFromStringSliceSlice":       pgsql.TSVectorArrayFromStringSliceSlice,
	"TSVectorArrayToByteSliceSliceSlice":      pgsql.TSVectorArrayToByteSliceSliceSlice,
	"TSVectorArrayToStringSliceSlice":         pgsql.TSVectorArrayToStringSliceSlice,
	"TSVectorFromByteSliceSlice":              pgsql.TSVectorFromByteSliceSlice,
	"TSVectorFromStringSlice":                 pgsql.TSVectorFromStringSlice,
	"TSVectorToByteSliceSlice":                pgsql.TSVectorToByteSliceSlice,
	"TSVectorToStringSlice":                   pgsql.TSVectorToStringSlice,
	"TextArrayFromByteSliceSlice":             pgsql.TextArrayFromByteSliceSlice,
	"TextArrayFromStringSlice":                pgsql.TextArrayFromStringSlice,
	"TextArrayToByteSliceSlice":               pgsql.TextArrayToByteSliceSlice,
	"TextArrayToStringSlice":                  pgsql.TextArrayToStringSlice,
	"TimeArrayFromTimeSlice":                  pgsql.TimeArrayFromTimeSlice,
	"TimeArrayToTimeSlice":                    pgsql.TimeArrayToTimeSlice,
	"TimeToByteSlice":                         pgsql.TimeToByteSlice,
	"TimeToString":                            pgsql.TimeToString,
	"TimestampArrayFromTimeSlice":             pgsql.TimestampArrayFromTimeSlice,
	"TimestampArrayToTimeSlice":               pgsql.TimestampArrayToTimeSlice,
	"TimestamptzArrayFromTimeSlice":           pgsql.TimestamptzArrayFromTimeSlice,
	"TimestamptzArrayToTimeSlice":             pgsql.TimestamptzArrayToTimeSlice,
	"TimetzArrayFromTimeSlice":                pgsql.TimetzArrayFromTimeSlice,
	"TimetzArrayToTimeSlice":                  pgsql.TimetzArrayToTimeSlice,
	"TimetzToByteSlice":                       pgsql.TimetzToByteSlice,
	"TimetzToString":                          pgsql.TimetzToString,
	"TsRangeArrayFromTimeArray2Slice":         pgsql.TsRangeArrayFromTimeArray2Slice,
	"TsRangeArrayToTimeArray2Slice":           pgsql.TsRangeArrayToTimeArray2Slice,
	"TsRangeFromTimeArray2":                   pgsql.TsRangeFromTimeArray2,
	"TsRangeToTimeArray2":                     pgsql.TsRangeToTimeArray2,
	"TstzRangeArrayFromTimeArray2Slice":       pgsql.TstzRangeArrayFromTimeArray2Slice,
	"TstzRangeArrayToTimeArray2Slice":         pgsql.TstzRangeArrayToTimeArray2Slice,
	"TstzRangeFromTimeArray2":                 pgsql.TstzRangeFromTimeArray2,
	"TstzRangeToTimeArray2":                   pgsql.TstzRangeToTimeArray2,
	"UUIDArrayFromByteArray16Slice":           pgsql.UUIDArrayFromByteArray16Slice,
	"UUIDArrayFromByteSliceSlice":             pgsql.UUIDArrayFromByteSliceSlice,
	"UUIDArrayFromStringSlice":                pgsql.UUIDArrayFromStringSlice,
	"UUIDArrayToByteArray16Slice":             pgsql.UUIDArrayToByteArray16Slice,
	"UUIDArrayToByteSliceSlice":               pgsql.UUIDArrayToByteSliceSlice,
	"UUIDArrayToStringSlice":                  pgsql.UUIDArrayToStringSlice,
	"UUIDFromByteArray16":                     pgsql.UUIDFromByteArray16,
	"UUIDToByteArray16":                       pgsql.UUIDToByteArray16,
	"VarBitArrayFromBoolSliceSlice":           pgsql.VarBitArrayFromBoolSliceSlice,
	"VarBitArrayFromInt64Slice":               pgsql.VarBitArrayFromInt64Slice,
	"VarBitArrayFromStringSlice":              pgsql.VarBitArrayFromStringSlice,
	"VarBitArrayFromUint8SliceSlice":          pgsql.VarBitArrayFromUint8SliceSlice,
	"VarBitArrayToBoolSliceSlice":             pgsql.VarBitArrayToBoolSliceSlice,
	"VarBitArrayToInt64Slice":                 pgsql.VarBitArrayToInt64Slice,
	"VarBitArrayToStringSlice":                pgsql.VarBitArrayToStringSlice,
	"VarBitArrayToUint8SliceSlice":            pgsql.VarBitArrayToUint8SliceSlice,
	"VarBitFromBoolSlice":                     pgsql.VarBitFromBoolSlice,
	"VarBitFromInt64":                         pgsql.VarBitFromInt64,
	"VarBitFromUint8Slice":                    pgsql.VarBitFromUint8Slice,
	"VarBitToBoolSlice":                       pgsql.VarBitToBoolSlice,
	"VarBitToInt64":                           pgsql.VarBitToInt64,
	"VarBitToUint8Slice":                      pgsql.VarBitToUint8Slice,
	"VarCharArrayFromByteSliceSlice":          pgsql.VarCharArrayFromByteSliceSlice,
	"VarCharArrayFromStringSlice":             pgsql.VarCharArrayFromStringSlice,
	"VarCharArrayToByteSliceSlice":            pgsql.VarCharArrayToByteSliceSlice,
	"VarCharArrayToStringSlice":               pgsql.VarCharArrayToStringSlice,
	"XML":                                     pgsql.XML,
	"XMLArrayFromByteSliceSlice":              pgsql.XMLArrayFromByteSliceSlice,
	"XMLArrayToByteSliceSlice":                pgsql.XMLArrayToByteSliceSlice,
}
