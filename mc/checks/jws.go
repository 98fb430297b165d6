package checks

import (
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"sync"

	"github.com/go-jose/go-jose/v4"
)

// Hand-made JWS: independent of the code under test and of the library it uses.

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func ecKey(c elliptic.Curve) *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(c, rand.Reader)
	if err != nil {
		panic(err)
	}
	return k
}

var (
	keyA    = sync.OnceValue(func() *ecdsa.PrivateKey { return ecKey(elliptic.P256()) })
	keyB    = sync.OnceValue(func() *ecdsa.PrivateKey { return ecKey(elliptic.P256()) })
	keyC    = sync.OnceValue(func() *ecdsa.PrivateKey { return ecKey(elliptic.P256()) })
	key384  = sync.OnceValue(func() *ecdsa.PrivateKey { return ecKey(elliptic.P384()) })
	keyRSA  = sync.OnceValue(func() *rsa.PrivateKey { k, _ := rsa.GenerateKey(rand.Reader, 2048); return k })
	keyEd   = sync.OnceValue(func() ed25519.PrivateKey { _, k, _ := ed25519.GenerateKey(rand.Reader); return k })
	keySym  = []byte("0123456789abcdef0123456789abcdef")
	algsAll = []jose.SignatureAlgorithm{jose.ES256, jose.ES384, jose.RS256, jose.PS256, jose.EdDSA}
)

// jwkMap is the public (or private) JWK of a key, as a JSON object.
func jwkMap(key any, private bool, extra map[string]any) map[string]any {
	m := map[string]any{}
	ec := func(pub *ecdsa.PublicKey) {
		n := (pub.Curve.Params().BitSize + 7) / 8
		m["kty"], m["crv"] = "EC", pub.Curve.Params().Name
		m["x"], m["y"] = b64(pub.X.FillBytes(make([]byte, n))), b64(pub.Y.FillBytes(make([]byte, n)))
	}
	switch k := key.(type) {
	case *ecdsa.PrivateKey:
		ec(&k.PublicKey)
		if private {
			m["d"] = b64(k.D.FillBytes(make([]byte, (k.Curve.Params().BitSize+7)/8)))
		}
	case *rsa.PrivateKey:
		m["kty"], m["n"], m["e"] = "RSA", b64(k.N.Bytes()), b64(big.NewInt(int64(k.E)).Bytes())
		if private {
			m["d"], m["p"], m["q"] = b64(k.D.Bytes()), b64(k.Primes[0].Bytes()), b64(k.Primes[1].Bytes())
		}
	case ed25519.PrivateKey:
		m["kty"], m["crv"], m["x"] = "OKP", "Ed25519", b64(k.Public().(ed25519.PublicKey))
		if private {
			m["d"] = b64(k.Seed())
		}
	case []byte:
		m["kty"], m["k"] = "oct", b64(k)
	}
	for a, b := range extra {
		m[a] = b
	}
	return m
}

// thumb is the RFC 7638 SHA-256 thumbprint.
func thumb(key any) string {
	m := jwkMap(key, false, nil)
	var s string
	switch m["kty"] {
	case "EC":
		s = fmt.Sprintf(`{"crv":%q,"kty":"EC","x":%q,"y":%q}`, m["crv"], m["x"], m["y"])
	case "RSA":
		s = fmt.Sprintf(`{"e":%q,"kty":"RSA","n":%q}`, m["e"], m["n"])
	case "OKP":
		s = fmt.Sprintf(`{"crv":%q,"kty":"OKP","x":%q}`, m["crv"], m["x"])
	}
	return s256(s)
}

func jwks(keys ...map[string]any) []byte {
	b, err := json.Marshal(map[string]any{"keys": keys})
	if err != nil {
		panic(err)
	}
	return b
}

func signRaw(alg string, key any, in []byte) []byte {
	es := func(k *ecdsa.PrivateKey, d []byte) []byte {
		r, s, err := ecdsa.Sign(rand.Reader, k, d)
		if err != nil {
			panic(err)
		}
		n := (k.Curve.Params().BitSize + 7) / 8
		return append(r.FillBytes(make([]byte, n)), s.FillBytes(make([]byte, n))...)
	}
	h := sha256.Sum256(in)
	switch alg {
	case "ES256":
		return es(key.(*ecdsa.PrivateKey), h[:])
	case "ES384":
		d := sha512.Sum384(in)
		return es(key.(*ecdsa.PrivateKey), d[:])
	case "RS256":
		b, err := rsa.SignPKCS1v15(rand.Reader, key.(*rsa.PrivateKey), crypto.SHA256, h[:])
		if err != nil {
			panic(err)
		}
		return b
	case "PS256":
		b, err := rsa.SignPSS(rand.Reader, key.(*rsa.PrivateKey), crypto.SHA256, h[:], &rsa.PSSOptions{SaltLength: 32})
		if err != nil {
			panic(err)
		}
		return b
	case "EdDSA":
		return ed25519.Sign(key.(ed25519.PrivateKey), in)
	case "HS256":
		m := hmac.New(sha256.New, key.([]byte))
		m.Write(in)
		return m.Sum(nil)
	}
	return nil // none
}

// craft makes a compact JWS. alg is what is really used for signing; the header says
// what the header map says.
func craft(alg string, key any, header, claims map[string]any) string {
	hb, _ := json.Marshal(header)
	cb, _ := json.Marshal(claims)
	return craftRaw(alg, key, string(hb), string(cb))
}

func craftRaw(alg string, key any, header, claims string) string {
	in := b64([]byte(header)) + "." + b64([]byte(claims))
	return in + "." + b64(signRaw(alg, key, []byte(in)))
}

// jwsParts decodes a compact JWS without verification.
func jwsParts(raw string) (header, claims map[string]any, ok bool) {
	p := strings.Split(raw, ".")
	if len(p) != 3 {
		return nil, nil, false
	}
	for i, m := range []*map[string]any{&header, &claims} {
		b, err := base64.RawURLEncoding.DecodeString(p[i])
		if err != nil || json.Unmarshal(b, m) != nil {
			return nil, nil, false
		}
	}
	return header, claims, true
}

// mutations of a compact token at every byte (first: flip in the base64 alphabet).
func tamper(raw string, i int) string {
	b := []byte(raw)
	switch {
	case b[i] == '.':
		b[i] = 'A'
	case b[i] == 'A':
		b[i] = 'Q'
	default:
		b[i] = 'A'
	}
	return string(b)
}

func copyMap(m map[string]any) map[string]any {
	o := map[string]any{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func publicOf(key any) any {
	switch k := key.(type) {
	case *ecdsa.PrivateKey:
		return &k.PublicKey
	case *rsa.PrivateKey:
		return &k.PublicKey
	case ed25519.PrivateKey:
		return k.Public()
	}
	return key
}

func provNil(context.Context) (*jose.JSONWebKeySet, error) { return nil, nil }
func provErr(context.Context) (*jose.JSONWebKeySet, error) {
	return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{{Key: publicOf(keyA()), KeyID: "kA"}}}, errors.New("down")
}

func provSetOf(s *jose.JSONWebKeySet) func(context.Context) (*jose.JSONWebKeySet, error) {
	return func(context.Context) (*jose.JSONWebKeySet, error) { return s, nil }
}
