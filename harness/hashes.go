package main

import (
	"crypto/sha1"
	"encoding/base64"
	"fmt"
	"math/rand"

	gocrypt "github.com/amoghe/go-crypt"
	"golang.org/x/crypto/argon2"
)

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// sshaOf makes the salted SHA-1 form of a password.
func sshaOf(r *rand.Rand, pw string) string {
	salt := randBytes(r, 4)
	h := sha1.Sum(append([]byte(pw), salt...))
	return "{SSHA}" + base64.StdEncoding.EncodeToString(append(h[:], salt...))
}

// argonOf makes the argon2id form of a password.
func argonOf(r *rand.Rand, pw string, mem, iter uint32, par uint8) string {
	salt := randBytes(r, 16)
	key := argon2.IDKey([]byte(pw), salt, iter, mem, par, 32)
	enc := base64.RawStdEncoding
	return fmt.Sprintf("{ARGON2}$argon2id$v=19$m=%d,t=%d,p=%d$%s$%s", mem, iter, par, enc.EncodeToString(salt), enc.EncodeToString(key))
}

const cryptAlphabet = "./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

// cryptOf makes a crypt form of a password; id is "" (DES), "1", "5" or "6".
func cryptOf(r *rand.Rand, pw, id string) string {
	salt := ""
	for i := 0; i < 8; i++ {
		salt += string(cryptAlphabet[r.Intn(64)])
	}
	switch id {
	case "":
		salt = salt[:2]
	case "5", "6":
		if r.Intn(3) == 0 {
			salt = fmt.Sprintf("$%s$rounds=1000$%s$", id, salt)
		} else {
			salt = "$" + id + "$" + salt + "$"
		}
	default:
		salt = "$" + id + "$" + salt + "$"
	}
	h, err := gocrypt.Crypt(pw, salt)
	if err != nil {
		panic(err)
	}
	return "{CRYPT}" + h
}
