// Package ref is an independent implementation of the version 1 file format,
// written from its description and not from the code under test.
//
//	8 magic | 4 version | 4 number of users (decimal)
//	single: 32 salt | 40 iv | payload
//	multi:  n * (32 sha256(user) | 32 salt | 40 iv | 80 master key) | 40 ivm | payload
//
// The payload is sha512(everything before it, plaintext) followed by the
// plaintext, padded (PKCS#7) and encrypted with AES-256, then Camellia-256,
// then CAST5, each in CBC mode with its part of key and iv.  A user's master
// key is the 80 byte key of the payload, encrypted the same way but unpadded.
package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"fmt"

	"github.com/enceve/crypto/camellia"
	"golang.org/x/crypto/cast5"
	"golang.org/x/crypto/scrypt"
)

const (
	SaltLen = 32
	KeyLen  = 80
	IVLen   = 40
	Magic   = "blobpass"
)

type suite struct {
	blocks []cipher.Block
	ivs    [][]byte
}

func newSuite(key, iv []byte) (s suite, err error) {
	a, err := aes.NewCipher(key[0:32])
	if err != nil {
		return s, err
	}
	b, err := camellia.NewCipher(key[32:64])
	if err != nil {
		return s, err
	}
	c, err := cast5.NewCipher(key[64:80])
	if err != nil {
		return s, err
	}
	return suite{[]cipher.Block{a, b, c}, [][]byte{iv[0:16], iv[16:32], iv[32:40]}}, nil
}

func pad(b []byte, n int) []byte {
	k := n - len(b)%n
	return append(append([]byte{}, b...), bytes.Repeat([]byte{byte(k)}, k)...)
}

func unpad(b []byte, n int) ([]byte, error) {
	if len(b) == 0 {
		return nil, errors.New("ref: empty")
	}
	k := int(b[len(b)-1])
	if k == 0 || k > n || k > len(b) {
		return nil, errors.New("ref: padding")
	}
	for _, x := range b[len(b)-k:] {
		if int(x) != k {
			return nil, errors.New("ref: padding")
		}
	}
	return b[:len(b)-k], nil
}

func (s suite) seal(b []byte, padded bool) []byte {
	b = append([]byte{}, b...)
	for i, c := range s.blocks {
		if padded {
			b = pad(b, c.BlockSize())
		}
		cipher.NewCBCEncrypter(c, s.ivs[i]).CryptBlocks(b, b)
	}
	return b
}

func (s suite) open(b []byte, padded bool) (_ []byte, err error) {
	b = append([]byte{}, b...)
	for i := len(s.blocks) - 1; i >= 0; i-- {
		c := s.blocks[i]
		if len(b)%c.BlockSize() != 0 {
			return nil, errors.New("ref: length")
		}
		cipher.NewCBCDecrypter(c, s.ivs[i]).CryptBlocks(b, b)
		if padded {
			if b, err = unpad(b, c.BlockSize()); err != nil {
				return nil, err
			}
		}
	}
	return b, nil
}

func Key(pass string, salt []byte) ([]byte, error) {
	return scrypt.Key([]byte(pass), salt, 1<<19, 8, 1, KeyLen)
}

type User struct {
	Name, Pass string
	Salt, IV   []byte
}

func payload(s suite, head, text []byte) []byte {
	h := sha512.New()
	h.Write(head)
	h.Write(text)
	return append(head, s.seal(append(h.Sum(nil), text...), true)...)
}

// SealSingle makes a single-user file.
func SealSingle(pass string, salt, iv, text []byte) ([]byte, error) {
	key, err := Key(pass, salt)
	if err != nil {
		return nil, err
	}
	s, err := newSuite(key, iv)
	if err != nil {
		return nil, err
	}
	head := []byte(fmt.Sprintf("%s%04d%04d", Magic, 1, 0))
	head = append(append(head, salt...), iv...)
	return payload(s, head, text), nil
}

// MKey is the master key as stored for a user.
func MKey(u User, master []byte) ([]byte, error) {
	key, err := Key(u.Pass, u.Salt)
	if err != nil {
		return nil, err
	}
	s, err := newSuite(key, u.IV)
	if err != nil {
		return nil, err
	}
	return s.seal(master, false), nil
}

// UnMKey is the master key of what is stored for a user.
func UnMKey(key, iv, mkey []byte) ([]byte, error) {
	s, err := newSuite(key, iv)
	if err != nil {
		return nil, err
	}
	return s.open(mkey, false)
}

// Material is what a file has of a user.
type Material struct {
	Name           string
	Salt, IV, MKey []byte
}

// SealMulti makes a multi-user file.
func SealMulti(users []User, master, ivm, text []byte) ([]byte, error) {
	var ms []Material
	for _, u := range users {
		mk, err := MKey(u, master)
		if err != nil {
			return nil, err
		}
		ms = append(ms, Material{u.Name, u.Salt, u.IV, mk})
	}
	return Assemble(ms, master, ivm, text)
}

// Assemble makes a multi-user file of existing key material.
func Assemble(users []Material, master, ivm, text []byte) ([]byte, error) {
	head := []byte(fmt.Sprintf("%s%04d%04d", Magic, 1, len(users)))
	for _, u := range users {
		h := sha256.Sum256([]byte(u.Name))
		for _, b := range [][]byte{h[:], u.Salt, u.IV, u.MKey} {
			head = append(head, b...)
		}
	}
	head = append(head, ivm...)
	s, err := newSuite(master, ivm)
	if err != nil {
		return nil, err
	}
	return payload(s, head, text), nil
}

type File struct {
	NUsers       int
	Text         []byte
	Master, IVM  []byte
	Salt, IV     []byte
	Hashes       [][]byte
	Salts        [][]byte
}

// Open opens a file of either kind.
func Open(file []byte, user, pass string) (f File, err error) {
	if len(file) < 16 || string(file[:8]) != Magic || string(file[8:12]) != "0001" {
		return f, errors.New("ref: not a version 1 file")
	}
	if _, err := fmt.Sscanf(string(file[12:16]), "%04d", &f.NUsers); err != nil {
		return f, err
	}
	var key, body []byte
	if f.NUsers == 0 {
		if len(file) < 16+SaltLen+IVLen {
			return f, errors.New("ref: short")
		}
		f.Salt, f.IV = file[16:48], file[48:88]
		if key, err = Key(pass, f.Salt); err != nil {
			return f, err
		}
		body = file[88:]
	} else {
		rec := 32 + SaltLen + IVLen + KeyLen
		end := 16 + f.NUsers*rec
		if len(file) < end+IVLen {
			return f, errors.New("ref: short")
		}
		h := sha256.Sum256([]byte(user))
		found := false
		for i := 0; i < f.NUsers; i++ {
			r := file[16+i*rec : 16+(i+1)*rec]
			f.Hashes = append(f.Hashes, r[:32])
			f.Salts = append(f.Salts, r[32:64])
			if !found && bytes.Equal(r[:32], h[:]) {
				found = true
				ukey, err := Key(pass, r[32:64])
				if err != nil {
					return f, err
				}
				s, err := newSuite(ukey, r[64:104])
				if err != nil {
					return f, err
				}
				if key, err = s.open(r[104:184], false); err != nil {
					return f, err
				}
				f.Salt = r[32:64]
			}
		}
		if !found {
			return f, errors.New("ref: no such user")
		}
		f.Master = key
		f.IV = file[end : end+IVLen]
		f.IVM = f.IV
		body = file[end+IVLen:]
	}
	s, err := newSuite(key, f.IV)
	if err != nil {
		return f, err
	}
	pt, err := s.open(body, true)
	if err != nil {
		return f, err
	}
	if len(pt) < 64 {
		return f, errors.New("ref: short payload")
	}
	h := sha512.New()
	h.Write(file[:len(file)-len(body)])
	h.Write(pt[64:])
	if !bytes.Equal(h.Sum(nil), pt[:64]) {
		return f, errors.New("ref: checksum")
	}
	f.Text = pt[64:]
	return f, nil
}
