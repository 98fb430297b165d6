package checks

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/fxamacker/cbor/v2"
	"github.com/go-jose/go-jose/v4"
	josejwt "github.com/go-jose/go-jose/v4/jwt"
	"go.mozilla.org/cose"

	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"
	"zntr.io/solid/sdk/token/jwt"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C20", Run: c20,
		Rule: "full product of token builders x keys x algorithms x claims; full product of verifier key sets x header key ids x signing keys x algorithms x supported algorithms; every byte altered"})
}

func c20(c *x.Ctx) {
	builders := []struct {
		name, typ string
		f         func(jose.SignatureAlgorithm, jwk.KeyProviderFunc) token.Serializer
		cf        func(*cose.Algorithm, jwk.KeyProviderFunc) token.Serializer
	}{
		{"access", "at", jwt.AccessTokenSigner, cwt.AccessTokenSigner},
		{"refresh", "rt", jwt.RefreshTokenSigner, cwt.RefreshTokenSigner},
		{"request", "oauth-authz-req", jwt.RequestSigner, cwt.RequestSigner},
		{"jarm", "jarm", jwt.JARMSigner, cwt.JARMSigner},
		{"dpop", "dpop", jwt.DPoPSigner, cwt.DPoPSigner},
		{"assertion", "client-assertion", jwt.ClientAssertionSigner, cwt.ClientAssertionSigner},
		{"introspection", "token-introspection", jwt.TokenIntrospection, cwt.TokenIntrospection},
		{"metadata", "oauth-authorization-server", jwt.ServerMetadata, nil},
		{"custom", "my-type", nil, func(a *cose.Algorithm, p jwk.KeyProviderFunc) token.Serializer {
			return cwt.DefaultSigner("my-type", a, p)
		}},
	}
	keys := []struct {
		name string
		key  any
		algs []string
	}{
		{"A", keyA(), []string{"ES256"}}, {"384", key384(), []string{"ES384"}}, {"rsa", keyRSA(), []string{"RS256", "PS256"}}, {"ed", keyEd(), []string{"EdDSA"}},
		{"pubA", publicOf(keyA()), nil}, {"nil", nil, nil},
	}
	claimSets := map[string]any{
		"map": map[string]any{"sub": "s", "n": 1}, "empty": map[string]any{}, "struct": struct {
			Sub string `json:"sub"`
		}{"x"}, "ptr": &struct {
			Sub string `json:"sub"`
		}{"x"}, "iat": map[string]any{"iat": 1, "iss": "i", "nested": map[string]any{"a": []int{1, 2}}},
	}
	has := func(l []string, s string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	for _, b := range builders {
		for _, k := range keys {
			for _, alg := range []string{"ES256", "ES384", "RS256", "PS256", "EdDSA", "none", ""} {
				for _, cn := range []string{"map", "empty", "struct", "ptr", "iat"} {
					cl := claimSets[cn]
					for _, kid := range []string{"key-1", "", "k/é 1"} {
						if b.f == nil {
							continue
						}
						b, k, alg, cn, cl, kid := b, k, alg, cn, cl, kid
						_ = cn
						c.Case(fmt.Sprintf("sign %s key=%s alg=%s claims=%s kid=%q", b.name, k.name, alg, cn, kid), func() string {
							c.Step()
							c.State(b.name + k.name + alg + cn + kid)
							raw, err := b.f(jose.SignatureAlgorithm(alg), provKey(k.key, kid)).Serialize(bg, cl)
							ok := has(k.algs, alg) && kid != ""
							c.Outcome(fmt.Sprintf("signed=%v", err == nil))
							if ok != (err == nil) {
								return fmt.Sprintf("signed=%v: %v", err == nil, err)
							}
							if err != nil {
								if raw != "" {
									return "a failure returned a token"
								}
								return ""
							}
							h, got, okp := jwsParts(raw)
							if !okp {
								return "not a compact JWS: " + raw
							}
							if h["typ"] != b.typ+"+jwt" || h["kid"] != kid || h["alg"] != alg {
								return fmt.Sprintf("header %v", h)
							}
							if e, has := h["jwk"].(map[string]any); has != (b.name == "dpop") {
								return fmt.Sprintf("embedded key %v", e)
							} else if has {
								for _, private := range []string{"d", "p", "q", "k"} {
									if e[private] != nil {
										return "the private key is embedded"
									}
								}
								for n, v := range jwkMap(k.key, false, nil) {
									if e[n] != v {
										return "another key is embedded"
									}
								}
							}
							var want map[string]any
							wb, _ := json.Marshal(cl)
							json.Unmarshal(wb, &want)
							if !reflect.DeepEqual(want, got) {
								return fmt.Sprintf("claims %v, want %v", got, want)
							}
							for _, o := range keys[:4] {
								t, err := josejwt.ParseSigned(raw, algsAll)
								if err != nil {
									return err.Error()
								}
								var m map[string]any
								err = t.Claims(publicOf(o.key), &m)
								if (err == nil) != (o.name == k.name) {
									return fmt.Sprintf("signature verifies=%v with key %s", err == nil, o.name)
								}
							}
							return ""
						})
					}
				}
			}
		}
		// faults of the key provider and nil inputs
		b := b
		c.Case("sign faults "+b.name, func() string {
			bad := map[string]jwk.KeyProviderFunc{
				"nil provider": nil,
				"nil key":      func(context.Context) (*jose.JSONWebKey, error) { return nil, nil },
				"error":        func(context.Context) (*jose.JSONWebKey, error) { return nil, errors.New("x") },
				"error and key": func(context.Context) (*jose.JSONWebKey, error) {
					return &jose.JSONWebKey{Key: keyA(), KeyID: "k"}, errors.New("x")
				},
			}
			for n, p := range bad {
				c.Step()
				if b.f != nil {
					if raw, err := b.f(jose.ES256, p).Serialize(bg, map[string]any{}); err == nil || raw != "" {
						return n
					}
				}
				if b.cf != nil {
					if raw, err := b.cf(cose.ES256, p).Serialize(bg, map[string]any{}); err == nil || raw != "" {
						return "cwt " + n
					}
				}
			}
			var nilPtr *struct{}
			for i, cl := range []any{nil, nilPtr, func() {}, make(chan int)} {
				if b.f != nil {
					if raw, err := b.f(jose.ES256, provKey(keyA(), "k")).Serialize(bg, cl); err == nil || raw != "" {
						return fmt.Sprintf("claims #%d signed", i)
					}
				}
				if b.cf != nil {
					if raw, err := b.cf(cose.ES256, provKey(keyA(), "k")).Serialize(bg, cl); err == nil || raw != "" {
						return fmt.Sprintf("cwt claims #%d signed", i)
					}
				}
			}
			if b.f == nil {
				return ""
			}
			if ct := b.f(jose.ES256, nil).ContentType(); ct != "JWT" {
				return "content type " + ct
			}
			return ""
		})
		if b.cf == nil {
			continue
		}
		for _, k := range keys {
			for _, kid := range []string{"key-1", ""} {
				for _, alg := range []*cose.Algorithm{cose.ES256, cose.ES384, cose.PS256} {
					b, k, kid, alg := b, k, kid, alg
					c.Case(fmt.Sprintf("cwt %s key=%s kid=%q alg=%s", b.name, k.name, kid, alg.Name), func() string {
						c.Step()
						cl := map[string]any{"sub": "s", "n": uint64(1)}
						raw, err := b.cf(alg, provKey(k.key, kid)).Serialize(bg, cl)
						must := kid != "" && (k.name == "A" && alg == cose.ES256 || k.name == "384" && alg == cose.ES384 || k.name == "rsa" && alg == cose.PS256)
						never := kid == "" || k.name == "pubA" || k.name == "nil"
						if must && err != nil || never && err == nil {
							return fmt.Sprintf("signed=%v: %v", err == nil, err)
						}
						if err != nil {
							if raw != "" {
								return "a failure returned a token"
							}
							return ""
						}
						if !must {
							return ""
						}
						bin, err := base64.RawURLEncoding.DecodeString(raw)
						if err != nil {
							return err.Error()
						}
						o, err := cose.Unmarshal(bin)
						if err != nil {
							return err.Error()
						}
						m := o.(cose.SignMessage)
						if len(m.Signatures) != 1 || m.Signatures[0].Headers.Protected["typ"] != b.typ+"+cwt" {
							return fmt.Sprintf("typ %v", m.Signatures[0].Headers.Protected["typ"])
						}
						for n, a := range m.Signatures[0].Headers.Protected {
							if fmt.Sprint(n) == "1" || fmt.Sprint(n) == "alg" {
								if a := fmt.Sprint(a); a != alg.Name && a != fmt.Sprint(alg.Value) {
									return "alg " + a
								}
							}
						}
						if kv := fmt.Sprint(m.Signatures[0].Headers.Unprotected); !strings.Contains(kv, kid) {
							return "kid " + kv
						}
						want, _ := cbor.Marshal(cl)
						var wm, gm map[string]any
						cbor.Unmarshal(want, &wm)
						cbor.Unmarshal(m.Payload, &gm)
						if !reflect.DeepEqual(wm, gm) {
							return fmt.Sprintf("claims %v", gm)
						}
						if err := m.Verify([]byte("solid"), []cose.Verifier{{Alg: alg, PublicKey: publicOf(k.key)}}); err != nil {
							return "signature: " + err.Error()
						}
						if k.name == "A" {
							if err := m.Verify([]byte("solid"), []cose.Verifier{{Alg: alg, PublicKey: publicOf(keyB())}}); err == nil {
								return "the signature verifies with another key"
							}
						}
						return ""
					})
				}
			}
		}
	}

	c.Case("key set functions without input", func() string {
		set := &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{{Key: publicOf(keyA()), KeyID: "k"}}}
		raw, err := jwt.AccessTokenSigner(jose.ES256, provKey(keyA(), "k")).Serialize(bg, map[string]any{})
		if err != nil {
			return err.Error()
		}
		t, _ := josejwt.ParseSigned(raw, algsAll)
		sg, _ := jose.ParseSigned(raw, algsAll)
		var m map[string]any
		for i, err := range []error{
			jwk.ValidateToken(nil, t, &m), jwk.ValidateToken(&jose.JSONWebKeySet{}, t, &m), jwk.ValidateToken(set, nil, &m),
			jwk.ValidateSignature(nil, sg), jwk.ValidateSignature(&jose.JSONWebKeySet{}, sg), jwk.ValidateSignature(set, nil),
		} {
			c.Step()
			if err == nil {
				return fmt.Sprintf("call #%d accepted", i)
			}
		}
		if jwk.ValidateToken(set, t, &m) != nil || jwk.ValidateSignature(set, sg) != nil {
			return "a valid token is refused"
		}
		return ""
	})

	textClaims(c)

	// verifiers
	kc := map[string]any{"A": keyA(), "B": keyB(), "384": key384(), "rsa": keyRSA(), "ed": keyEd()}
	algOf := map[string]string{"A": "ES256", "B": "ES256", "384": "ES384", "rsa": "RS256", "ed": "EdDSA"}
	type kd struct{ key, kid, use string }
	sets := [][]kd{
		{}, {{"A", "k1", "sig"}}, {{"A", "k1", ""}}, {{"A", "k1", "enc"}}, {{"B", "k1", "sig"}}, {{"B", "k1", "sig"}, {"A", "k1", "sig"}}, {{"B", "k1", "sig"}, {"A", "k2", "sig"}},
		{{"B", "k2", "sig"}, {"A", "k1", "sig"}}, {{"A", "k1", "enc"}, {"B", "k1", "sig"}}, {{"A", "", "sig"}}, {{"384", "k1", "sig"}, {"A", "k2", ""}}, {{"rsa", "k1", "sig"}, {"ed", "k2", "sig"}, {"384", "k3", "sig"}, {"A", "k4", "sig"}},
		{{"B", "k1", "enc"}, {"A", "k1", "sig"}},
	}
	sups := [][]string{{"ES256"}, {"ES256", "ES384", "RS256", "EdDSA"}, {"ES384"}, {}}
	for si, set := range sets {
		for _, sup := range sups {
			for _, signer := range []string{"A", "B", "384", "rsa", "ed", "none", "sym"} {
				for _, kid := range []string{drop, "", "k1", "k2", "k9"} {
					for _, alg := range []string{"own", "none", "HS256", "ES256"} {
						for _, emb := range []string{"no", "own", "A", "private"} {
							si, set, sup, signer, kid, alg, emb := si, set, sup, signer, kid, alg, emb
							if c.Skip() {
								c.SkipN()
								continue
							}
							c.Case(fmt.Sprintf("verify set#%d supported=%v signer=%s kid=%q alg=%s embedded=%s", si, sup, signer, kid, alg, emb), func() string {
								c.Step()
								real := algOf[signer]
								switch signer {
								case "none":
									real = "none"
								case "sym":
									real = "HS256"
								}
								h := map[string]any{"alg": alg, "typ": "t"}
								if alg == "own" {
									h["alg"] = real
								}
								if kid != drop {
									h["kid"] = kid
								}
								embKey := ""
								switch emb {
								case "own":
									if k := kc[signer]; k != nil {
										h["jwk"], embKey = jwkMap(k, false, nil), signer
									} else if signer == "sym" {
										h["jwk"] = jwkMap(keySym, true, nil)
									}
								case "A":
									h["jwk"], embKey = jwkMap(keyA(), false, nil), "A"
								case "private":
									h["jwk"] = jwkMap(keyA(), true, nil)
								}
								var key any = kc[signer]
								if signer == "sym" {
									key = keySym
								}
								raw := craft(real, key, h, map[string]any{"sub": "s"})
								headerAlg := fmt.Sprint(h["alg"])
								okSig := headerAlg == real && has(sup, real) && emb != "private" && !(emb == "own" && signer == "sym")
								inSet := false
								for _, k := range set {
									if k.use != "enc" && k.key == signer && (kid == drop || kid == "" || k.kid == kid) {
										inSet = true
									}
								}
								want := okSig && inSet
								var ks []pk
								for _, k := range set {
									ks = append(ks, pk{kc[k.key], k.kid, k.use})
								}
								var js []jose.SignatureAlgorithm
								for _, s := range sup {
									js = append(js, jose.SignatureAlgorithm(s))
								}
								var m map[string]any
								err := jwt.DefaultVerifier(provSet(ks...), js).Claims(bg, raw, &m)
								c.Outcome(fmt.Sprintf("verified=%v", err == nil))
								if want != (err == nil) {
									return fmt.Sprintf("key set verifier accepted=%v: %v", err == nil, err)
								}
								if err == nil && m["sub"] != "s" {
									return fmt.Sprintf("claims %v", m)
								}
								if err != nil && len(m) != 0 {
									return fmt.Sprintf("a refused token released the claims %v", m)
								}
								// key set signature helpers
								set0, _ := provSet(ks...)(bg)
								anyKey := false
								for _, k := range set {
									anyKey = anyKey || k.use != "enc" && k.key == signer
								}
								if t, err := josejwt.ParseSigned(raw, js); err == nil {
									var m2 map[string]any
									if err := jwk.ValidateToken(set0, t, &m2); (err == nil) != (okSig && anyKey) {
										return fmt.Sprintf("ValidateToken accepted=%v", err == nil)
									} else if err != nil && len(m2) != 0 {
										return fmt.Sprintf("ValidateToken released the claims %v", m2)
									}
									s, err := jose.ParseSigned(raw, js)
									if err != nil {
										return err.Error()
									}
									if err := jwk.ValidateSignature(set0, s); (err == nil) != (okSig && anyKey) {
										return fmt.Sprintf("ValidateSignature accepted=%v", err == nil)
									}
								}
								// embedded key verifier
								var m3 map[string]any
								err = jwt.EmbeddedKeyVerifier(js).Claims(bg, raw, &m3)
								if we := okSig && embKey != "" && embKey == signer; we != (err == nil) {
									return fmt.Sprintf("embedded key verifier accepted=%v: %v", err == nil, err)
								}
								if err != nil && len(m3) != 0 {
									return fmt.Sprintf("the embedded key verifier released the claims %v", m3)
								}
								for _, v := range []token.Verifier{jwt.EmbeddedKeyVerifier(js), jwt.DefaultVerifier(provSet(ks...), js)} {
									if err := v.Verify(raw); err == nil && (!has(sup, headerAlg)) {
										return "Verify accepted an algorithm which is not supported"
									}
									t, err := v.Parse(raw)
									if err != nil {
										if t != nil {
											return "parse failure returned a token"
										}
										continue
									}
									if !has(sup, headerAlg) {
										return "parsed with an algorithm which is not supported"
									}
									ty, _ := t.Type()
									al, _ := t.Algorithm()
									ki, _ := t.KeyID()
									th, terr := t.PublicKeyThumbPrint()
									wk := kid
									if kid == drop {
										wk = ""
									}
									if ty != "t" || al != headerAlg || ki != wk {
										return fmt.Sprintf("typ=%s alg=%s kid=%s", ty, al, ki)
									}
									if (embKey != "") != (terr == nil) || embKey != "" && th != thumb(kc[embKey]) {
										return fmt.Sprintf("thumbprint %s %v", th, terr)
									}
									if k := kc[signer]; k != nil {
										var a, b map[string]any
										if (t.Claims(publicOf(k), &a) == nil) != okSig {
											return "claims with the key of the signer"
										}
										other := "B"
										if signer == "B" {
											other = "A"
										}
										if t.Claims(publicOf(kc[other]), &b) == nil {
											return "claims accepted with another key"
										}
									}
								}
								return ""
							})
						}
					}
				}
			}
		}
	}
	for _, p := range []struct {
		n string
		f jwk.KeySetProviderFunc
	}{{"nil", nil}, {"nil set", provNil}, {"error", provErr}} {
		p := p
		c.Case("key set provider "+p.n, func() string {
			c.Step()
			raw := craft("ES256", keyA(), map[string]any{"alg": "ES256", "kid": "kA"}, map[string]any{"sub": "s"})
			var m map[string]any
			if err := jwt.DefaultVerifier(p.f, []jose.SignatureAlgorithm{jose.ES256}).Claims(bg, raw, &m); err == nil {
				return "accepted"
			}
			return ""
		})
	}
	for _, b := range builders {
		for _, ct := range []string{"JWT", "CWT"} {
			b, ct := b, ct
			if ct == "JWT" && b.f == nil || ct == "CWT" && b.cf == nil {
				continue
			}
			c.Case("content type of "+ct+" "+b.name, func() string {
				c.Step()
				var s token.Serializer
				if ct == "JWT" {
					s = b.f(jose.ES256, provKey(keyA(), "k"))
				} else {
					s = b.cf(cose.ES256, provKey(keyA(), "k"))
				}
				if s.ContentType() != ct {
					return s.ContentType()
				}
				return ""
			})
		}
	}
	// the embedded key has to be for the algorithm of the token
	for _, k := range keys[:4] {
		for _, alg := range k.algs {
			for _, kalg := range []string{"", "ES256", "ES384", "RS256", "PS256", "EdDSA", "none", "es256"} {
				for ei, extra := range []map[string]any{nil, {}, {"kid": "k"}, {"kid": alg}, {"use": "sig"}, {"use": "enc"}, {"kid": "k", "use": "sig"}, {"key_ops": []string{"verify"}}, {"kid": "k", "hkid": "k"}, {"kid": "k", "hkid": "o"}, {"hkid": "k"}, {"htyp": "dpop+jwt"}, {"kid": "k", "htyp": "at+jwt"}} {
					k, alg, kalg, emb := k, alg, kalg, extra != nil
					c.Case(fmt.Sprintf("embedded key %s of algorithm %q, members#%d, token %s", k.name, kalg, ei, alg), func() string {
						c.Step()
						h := map[string]any{"alg": alg}
						m := map[string]any{"alg": kalg}
						for n, v := range extra {
							if n[0] == 'h' {
								h[n[1:]] = v
							} else {
								m[n] = v
							}
						}
						if emb {
							h["jwk"] = jwkMap(k.key, false, m)
						}
						err := jwt.EmbeddedKeyVerifier(algsAll).Verify(craft(alg, k.key, h, map[string]any{"sub": "s"}))
						if kalg == "" && emb || kalg == alg && extra["use"] == "enc" {
							return "" // a key without an algorithm, or for another use: either
						}
						if (err == nil) != (emb && kalg == alg) {
							return fmt.Sprintf("verified=%v: %v", err == nil, err)
						}
						return ""
					})
				}
			}
		}
	}
	for i, s := range []string{"", ".", "..", "...", "a.b.c", "{}", "eyJhbGciOiJFUzI1NiJ9..", "null", `{"payload":"","signatures":[]}`, `{"payload":"e30","signatures":null}`} {
		i, s := i, s
		c.Case(fmt.Sprintf("malformed #%d", i), func() string {
			c.Step()
			js := []jose.SignatureAlgorithm{jose.ES256}
			for _, v := range []token.Verifier{jwt.EmbeddedKeyVerifier(js), jwt.DefaultVerifier(provSet(pk{keyA(), "k", ""}), js)} {
				var m map[string]any
				if v.Claims(bg, s, &m) == nil {
					return "claims accepted"
				}
			}
			return ""
		})
	}
	c.Case("tampered", func() string {
		raw := craft("ES256", keyA(), map[string]any{"alg": "ES256", "jwk": jwkMap(keyA(), false, nil)}, map[string]any{"sub": "s"})
		js := []jose.SignatureAlgorithm{jose.ES256}
		for i := range raw {
			if i+1 == len(raw) || raw[i+1] == '.' {
				continue
			}
			c.Step()
			for _, v := range []token.Verifier{jwt.EmbeddedKeyVerifier(js), jwt.DefaultVerifier(provSet(pk{keyA(), "k", ""}), js)} {
				var m map[string]any
				if v.Claims(bg, tamper(raw, i), &m) == nil {
					return fmt.Sprintf("accepted with byte %d altered", i)
				}
				if len(m) != 0 {
					return fmt.Sprintf("claims released with byte %d altered", i)
				}
			}
		}
		return ""
	})
	for _, known := range [][]pk{{{keyA(), "k", ""}}, {{keyA(), "", ""}}, {{keyB(), "k2", ""}, {keyA(), "k", "sig"}}} {
		for _, alg := range []jose.SignatureAlgorithm{jose.ES256} {
			v := jwt.DefaultVerifier(provSet(known...), []jose.SignatureAlgorithm{alg})
			headerKeys(c, fmt.Sprintf("set of %d, first %q", len(known), known[0].kid), map[string]any{"alg": "ES256", "typ": "t"}, []string{"k", "k2"}, func(h map[string]any) error {
				var m map[string]any
				err := v.Claims(bg, craft("ES256", keyC(), h, map[string]any{"sub": "s"}), &m)
				if err != nil && len(m) != 0 {
					return nil
				}
				return err
			})
		}
	}
	// what the signing key declares about itself never changes what is signed
	for _, b := range builders {
		for _, alg := range []string{"", "ES256"} {
			for _, use := range []string{"", "sig"} {
				for _, kid := range []string{"key-1", "k/é 1", "ES256", strings.Repeat("k", 200)} {
					b, alg, use, kid := b, alg, use, kid
					c.Case(fmt.Sprintf("%s by a key %q declared for %q %q", b.name, kid, alg, use), func() string {
						c.Step()
						prov := func(context.Context) (*jose.JSONWebKey, error) {
							return &jose.JSONWebKey{Key: keyA(), KeyID: kid, Algorithm: alg, Use: use}, nil
						}
						if b.f != nil {
							raw, err := b.f(jose.ES256, prov).Serialize(bg, map[string]any{"sub": "s"})
							if err != nil {
								return err.Error()
							}
							h, _, ok := jwsParts(raw)
							if !ok || h["kid"] != kid || h["typ"] != b.typ+"+jwt" || h["alg"] != "ES256" {
								return fmt.Sprintf("header %v", h)
							}
							var m map[string]any
							if err := jwt.DefaultVerifier(provSet(pk{keyB(), "x", ""}, pk{keyA(), kid, use}), []jose.SignatureAlgorithm{jose.ES256}).Claims(bg, raw, &m); err != nil || m["sub"] != "s" {
								return fmt.Sprintf("claims %v: %v", m, err)
							}
						}
						if b.cf != nil {
							raw, err := b.cf(cose.ES256, prov).Serialize(bg, map[string]any{"sub": "s"})
							if err != nil {
								return err.Error()
							}
							bin, err := base64.RawURLEncoding.DecodeString(raw)
							if err != nil {
								return err.Error()
							}
							o, err := cose.Unmarshal(bin)
							if err != nil {
								return err.Error()
							}
							m := o.(cose.SignMessage)
							if len(m.Signatures) != 1 || m.Signatures[0].Headers.Protected["typ"] != b.typ+"+cwt" {
								return fmt.Sprintf("typ %v", m.Signatures[0].Headers.Protected["typ"])
							}
							named := false
							for n, v := range m.Signatures[0].Headers.Unprotected {
								if fmt.Sprint(n) == "kid" || fmt.Sprint(n) == "4" {
									if kb, ok := v.([]byte); ok {
										v = string(kb)
									}
									named = fmt.Sprint(v) == kid
								}
							}
							if !named {
								return fmt.Sprintf("key id in %v, must be %q", m.Signatures[0].Headers.Unprotected, kid)
							}
						}
						return ""
					})
				}
			}
		}
	}
	c20instance(c)
	manyKeys(c, "verifier")
}
