// Package scrypt is the verification stand-in for the memory-hard KDF: it is a
// cheap function of the very same inputs (every parameter included), so the
// file format and the key handling are unchanged and only the cost is gone.
package scrypt

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"errors"
)

func Key(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {
	if N <= 1 || N&(N-1) != 0 {
		return nil, errors.New("scrypt: N must be > 1 and a power of 2")
	}
	var out []byte
	for i := 0; len(out) < keyLen; i++ {
		m := hmac.New(sha256.New, password)
		for _, v := range []int{N, r, p, keyLen, i} {
			binary.Write(m, binary.BigEndian, int64(v))
		}
		m.Write(salt)
		out = m.Sum(out)
	}
	return out[:keyLen], nil
}
