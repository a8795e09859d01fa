package col

// Added to package col by a build overlay only; gives the harness the codec functions.

func VerifEncodeVarInt(v uint64) []byte            { return encodeVarInt(v) }
func VerifDecodeVarInt(b []byte) (uint64, int)     { return decodeVarInt(b) }
func VerifEncodeSignedVarInt(v int64) []byte       { return encodeSignedVarInt(v) }
func VerifDecodeSignedVarInt(b []byte) (int64, int) { return decodeSignedVarInt(b) }
func VerifInt64ToUint64(v int64) uint64            { return int64ToUint64(v) }
func VerifUint64ToInt64(v uint64) int64            { return uint64ToInt64(v) }
func VerifDeltaEncode(v []uint64) []uint64         { return deltaEncode(v) }
func VerifDeltaDecode(v []uint64) []uint64         { return deltaDecode(v) }
func VerifDeltaEncodeInt64(v []int64) []int64      { return deltaEncodeInt64(v) }
func VerifDeltaDecodeInt64(v []int64) []int64      { return deltaDecodeInt64(v) }
