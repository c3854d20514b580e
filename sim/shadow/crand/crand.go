package rand

import (
	"errors"
	"io"
	"math/big"
	simrand "verifsim/shadow/rand"
)

var Fail bool

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	if Fail {
		return 0, errors.New("crypto/rand: entropy source failed (injected)")
	}
	for i := range p {
		p[i] = byte(simrand.Global.U64())
	}
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return io.ReadFull(Reader, p) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, (max.BitLen()+7)/8+8)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	return new(big.Int).Mod(new(big.Int).SetBytes(b), max), nil
}
