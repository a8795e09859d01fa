package main

import "vibe-lsm/pkg/col"

func init() {
	codec = &codecFns{col.VerifEncodeVarInt, col.VerifDecodeVarInt, col.VerifEncodeSignedVarInt, col.VerifDecodeSignedVarInt, col.VerifInt64ToUint64, col.VerifUint64ToInt64, col.VerifDeltaEncode, col.VerifDeltaDecode, col.VerifDeltaEncodeInt64, col.VerifDeltaDecodeInt64}
}
