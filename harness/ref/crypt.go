package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rc4"
	"encoding/binary"
	"fmt"
)

var pad = []byte{0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A}

// Crypt is the encrypting side of the standard security handler (PDF 1.7, 7.6).
type Crypt struct {
	V, R  int
	Bits  int // file key length in bits
	User  string
	Owner string
	P     int32
	ID    string
	Meta  bool // EncryptMetadata
	O, U  []byte
	ivs   int
}

// Method of one crypt filter.
type Method struct {
	Kind string // "RC4", "AES" or "None"
	Len  int    // key length in bytes
}

func padded(pw string) []byte {
	b := append([]byte(pw), pad...)
	return b[:32]
}

func md(b ...[]byte) []byte {
	h := md5.New()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}

func arc4(key, data []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(data))
	c.XORKeyStream(out, data)
	return out
}

func xorKey(k []byte, x byte) []byte {
	o := make([]byte, len(k))
	for i := range k {
		o[i] = k[i] ^ x
	}
	return o
}

// Setup computes O and U (algorithms 3, 4 and 5).
func (c *Crypt) Setup() {
	n := c.Bits / 8
	owner := c.Owner
	if owner == "" {
		owner = c.User
	}
	k := md(padded(owner))
	if c.R >= 3 {
		for i := 0; i < 50; i++ {
			k = md(k)
		}
	}
	k = k[:n]
	o := arc4(k, padded(c.User))
	if c.R >= 3 {
		for i := 1; i <= 19; i++ {
			o = arc4(xorKey(k, byte(i)), o)
		}
	}
	c.O = o
	key := c.Key(n)
	if c.R == 2 {
		c.U = arc4(key, pad)
		return
	}
	u := arc4(key, md(pad, []byte(c.ID)))
	for i := 1; i <= 19; i++ {
		u = arc4(xorKey(key, byte(i)), u)
	}
	c.U = append(u, make([]byte, 16)...)
}

// Key is algorithm 2 for a key of n bytes.
func (c *Crypt) Key(n int) []byte {
	var p [4]byte
	binary.LittleEndian.PutUint32(p[:], uint32(c.P))
	parts := [][]byte{padded(c.User), c.O, p[:], []byte(c.ID)}
	if c.R >= 4 && !c.Meta {
		parts = append(parts, []byte{255, 255, 255, 255})
	}
	k := md(parts...)[:n]
	if c.R >= 3 {
		for i := 0; i < 50; i++ {
			k = md(k)[:n]
		}
	}
	return k
}

// Encrypt encrypts a string or stream of object n g.
func (c *Crypt) Encrypt(m Method, n, g int, data []byte) []byte {
	if m.Kind == "None" {
		return data
	}
	salt := append([]byte{}, c.Key(m.Len)...)
	salt = append(salt, byte(n), byte(n>>8), byte(n>>16), byte(g), byte(g>>8))
	if m.Kind == "AES" {
		salt = append(salt, "sAlT"...)
	}
	k := md(salt)
	if l := m.Len + 5; l < 16 {
		k = k[:l]
	}
	if m.Kind == "RC4" {
		return arc4(k, data)
	}
	blk, err := aes.NewCipher(k)
	if err != nil {
		panic(err)
	}
	c.ivs++
	iv := md([]byte(fmt.Sprint("iv", c.ivs, n, g)))
	p := 16 - len(data)%16
	pt := append(append([]byte{}, data...), bytes.Repeat([]byte{byte(p)}, p)...)
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(pt, pt)
	return append(iv, pt...)
}

// Dict is the encryption dictionary; cf is its crypt filter part (V 4).
func (c *Crypt) Dict(cf string) string {
	s := fmt.Sprintf("<</Filter /Standard /V %d /R %d", c.V, c.R)
	if c.V >= 2 {
		s += fmt.Sprintf(" /Length %d", c.Bits)
	}
	s += fmt.Sprintf(" /P %d /O %s /U %s", c.P, HexLit(string(c.O)), HexLit(string(c.U)))
	if c.R >= 4 && !c.Meta {
		s += " /EncryptMetadata false"
	}
	return s + " " + cf + ">>"
}

// Trailer gives the Encrypt and ID entries.
func (c *Crypt) Trailer(encrypt string) string {
	return fmt.Sprintf("/Root 1 0 R /Encrypt %s /ID [%s %s]", encrypt, HexLit(c.ID), HexLit(c.ID))
}

// EncryptValue encrypts all strings of a value.
func (c *Crypt) EncryptValue(m Method, n, g int, v V) V {
	switch x := v.(type) {
	case Str:
		return Str(c.Encrypt(m, n, g, []byte(x)))
	case Arr:
		o := Arr{}
		for _, e := range x {
			o = append(o, c.EncryptValue(m, n, g, e))
		}
		return o
	case Dict:
		o := Dict{}
		for _, e := range x {
			o = append(o, KV{e.K, c.EncryptValue(m, n, g, e.V)})
		}
		return o
	}
	return v
}
