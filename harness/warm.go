package main

import (
	"encoding/gob"
	"math/big"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"
)

// warm registers the types of the wire format with the encoder in one order, so
// that every process produces the same bytes for the same event.
func warm() {
	defer func() { recover() }()
	one := big.NewInt(1)
	gob.Register(make([]util.ByteArray, 2))
	util.Encode(&proto.Event{EventType: 1, SrcAddr: "x", Params: map[string]interface{}{"a": []byte{1}, "b": "x", "c": 1, "d": true}})
	util.Encode2DByteArray([][]byte{{1}})
	util.EncodeBigInt(one)
	util.ProtobufEncodeBigIntList([]*big.Int{one})
	util.EncodeIntArray([]int{1})
	util.EncodeARGnonneg(&fujiokam.ARGnonneg{one, one, one, one, one, one, one, one, one})
	util.EncodeARGequal(&pedersen_fujiokam.ARGequal{one, one, one, one})
}
