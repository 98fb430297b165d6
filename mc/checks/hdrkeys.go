package checks

import (
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"fmt"
	"math/big"
	"sync"
	"time"

	"verif.local/mc/x"
)

// certC is a self-signed certificate of the attacker's key.
var certC = sync.OnceValue(func() string {
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "c"}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0)}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &keyC().PublicKey, keyC())
	if err != nil {
		panic(err)
	}
	return base64.StdEncoding.EncodeToString(der)
})

// headerKeys enumerates what an attacker who signs with key C may put in the header to bring
// that key: embedded keys under every key id, certificates, key locations. kids are the key ids
// the verifier knows. Nothing in a header makes C a trusted key.
func headerKeys(c *x.Ctx, what string, base map[string]any, kids []string, try func(h map[string]any) error) {
	jwk := func(kid string, extra map[string]any) map[string]any {
		m := jwkMap(keyC(), false, extra)
		if kid != drop {
			m["kid"] = kid
		}
		return m
	}
	all := append([]string{drop, "", "kX"}, kids...)
	for _, kid := range all {
		for _, in := range append([]string{"no jwk", "jwk of the real key"}, all...) {
			for _, declared := range []string{"", "sig", "alg"} {
				for _, other := range []string{"", "x5c", "jku", "x5u", "x5t"} {
					kid, in, declared, other := kid, in, declared, other
					c.Case(fmt.Sprintf("%s with header kid %q jwk %q %s %s", what, kid, in, declared, other), func() string {
						c.Step()
						h := map[string]any{}
						for n, v := range base {
							h[n] = v
						}
						if kid != drop {
							h["kid"] = kid
						}
						extra := map[string]any{}
						switch declared {
						case "sig":
							extra["use"] = "sig"
						case "alg":
							extra["alg"], extra["use"], extra["key_ops"] = "ES256", "sig", []string{"verify"}
						}
						switch in {
						case "no jwk":
						case "jwk of the real key":
							h["jwk"] = jwkMap(keyA(), false, extra)
						default:
							h["jwk"] = jwk(in, extra)
						}
						switch other {
						case "x5c":
							h["x5c"] = []string{certC()}
						case "x5t":
							h["x5t"] = s256(certC())
						case "jku", "x5u":
							h[other] = "http://127.0.0.1:1/keys"
						}
						if err := try(h); err == nil {
							return "a token signed by a key which is not trusted is accepted"
						}
						return ""
					})
				}
			}
		}
	}
}
