package gen

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
)

func cbcRaw(key, iv, d []byte, dec bool) []byte {
	b, _ := aes.NewCipher(key)
	out := make([]byte, len(d))
	if dec {
		cipher.NewCBCDecrypter(b, iv).CryptBlocks(out, d)
	} else {
		cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, d)
	}
	return out
}

// Hash256 is Algorithm 2.B of ISO 32000-2 (r = 6), or the SHA-256 of revision 5.
func Hash256(r int, pw, salt, u []byte) []byte {
	h := sha256.Sum256(append(append(append([]byte{}, pw...), salt...), u...))
	k := h[:]
	if r < 6 {
		return k
	}
	for i := 0; ; i++ {
		one := append(append(append([]byte{}, pw...), k...), u...)
		var k1 []byte
		for j := 0; j < 64; j++ {
			k1 = append(k1, one...)
		}
		e := cbcRaw(k[:16], k[16:32], k1, false)
		m := 0
		for _, c := range e[:16] {
			m += int(c)
		}
		switch m % 3 {
		case 0:
			x := sha256.Sum256(e)
			k = x[:]
		case 1:
			x := sha512.Sum384(e)
			k = x[:]
		default:
			x := sha512.Sum512(e)
			k = x[:]
		}
		if i >= 63 && int(e[len(e)-1]) <= i-31 {
			return k[:32]
		}
	}
}

// Crypt256 is the standard security handler of ISO 32000-2 7.6 with AES-256.
type Crypt256 struct {
	R                    int
	Key, U, O, UE, OE, P []byte
}

// NewCrypt256 makes an AES-256 security handler.
func NewCrypt256(r int, user, owner []byte) *Crypt256 {
	key := sha256.Sum256([]byte("a file key"))
	zero := make([]byte, 16)
	c := &Crypt256{R: r, Key: key[:]}
	vs, ks := []byte("validate"), []byte("keysalt1")
	c.U = append(append(Hash256(r, user, vs, nil), vs...), ks...)
	c.UE = cbcRaw(Hash256(r, user, ks, nil), zero, c.Key, false)
	vs, ks = []byte("ownerval"), []byte("ownerkey")
	c.O = append(append(Hash256(r, owner, vs, c.U), vs...), ks...)
	c.OE = cbcRaw(Hash256(r, owner, ks, c.U), zero, c.Key, false)
	p := []byte{0xd4, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 'T', 'a', 'd', 'b', 'r', 'a', 'n', 'd'}
	c.P = make([]byte, 16)
	b, _ := aes.NewCipher(c.Key)
	b.Encrypt(c.P, p)
	return c
}

// Dict is the encryption dictionary.
func (c *Crypt256) Dict() string {
	return fmt.Sprintf("<</Filter/Standard/V 5/R %d/Length 256/P -44/O%s/U%s/OE%s/UE%s/Perms<%X>/CF<</StdCF<</CFM/AESV3/AuthEvent/DocOpen/Length 32>>>>/StmF/StdCF/StrF/StdCF>>", c.R, strForm(c.O), strForm(c.U), strForm(c.OE), strForm(c.UE), c.P)
}

// Enc encrypts a string or stream.
func (c *Crypt256) Enc(d []byte) []byte {
	iv := []byte("0123456789abcdef")
	p := 16 - len(d)%16
	d = append([]byte{}, d...)
	for i := 0; i < p; i++ {
		d = append(d, byte(p))
	}
	return append(append([]byte{}, iv...), cbcRaw(c.Key, iv, d, false)...)
}

// Open256 derives the file key from an encryption dictionary's entries.
func Open256(r int, pw, u, ue []byte) []byte {
	if len(u) < 48 || len(ue) != 32 || string(Hash256(r, pw, u[32:40], nil)) != string(u[:32]) {
		return nil
	}
	return cbcRaw(Hash256(r, pw, u[40:48], nil), make([]byte, 16), ue, true)
}
