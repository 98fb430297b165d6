package checks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"github.com/go-jose/go-jose/v4"
	"go.mozilla.org/cose"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/pkce"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/server/storage/inmemory"

	"verif.local/mc/x"
)

type nopSerializer struct{}

func (*nopSerializer) Serialize(context.Context, any) (string, error) { return "ok", nil }
func (*nopSerializer) ContentType() string                            { return "T" }

type nopEncrypter struct{}

func (*nopEncrypter) Encrypt(context.Context, string, string, []byte) (string, error) {
	return "enc", nil
}

// c26sdk feeds every decoder of the SDK with structurally wrong tokens, and every encoder with
// missing collaborators and messages.
func c26sdk(c *x.Ctx) {
	algs := []jose.SignatureAlgorithm{jose.ES256}
	keyJSON, _ := json.Marshal(jwkMap(keyA(), false, nil))
	privJSON, _ := json.Marshal(jwkMap(keyA(), true, nil))
	type fld struct{ k, v string }
	dims := [][]fld{
		{{"alg", `"ES256"`}, {"", ""}, {"alg", "null"}, {"alg", "1"}, {"alg", `""`}, {"alg", `"none"`}, {"alg", `"HS256"`}, {"alg", `"ES384"`}, {"alg", `["ES256"]`}},
		{{"typ", `"%TYP%"`}, {"", ""}, {"typ", "null"}, {"typ", "1"}, {"typ", `["x"]`}, {"typ", `""`}},
		{{"", ""}, {"jwk", string(keyJSON)}, {"jwk", "null"}, {"jwk", "1"}, {"jwk", "{}"}, {"jwk", `{"kty":"EC"}`}, {"jwk", `{"kty":"EC","crv":"P-256","x":"","y":""}`}, {"jwk", `{"kty":"oct","k":"AAAA"}`}, {"jwk", string(privJSON)}, {"jwk", `{"kty":"RSA","n":"AQ","e":"AQAB"}`}},
		{{"", ""}, {"kid", `"kA"`}, {"kid", "null"}, {"kid", "1"}, {"crit", `["x"]`}, {"b64", "false"}, {"zip", `"DEF"`}},
	}
	payloads := []string{"{}", "null", "[]", `"x"`, "1", "", "{", `{"exp":"x","iat":"y","nbf":{}}`, `{"iss":1,"sub":null,"aud":{}}`, `{"jti":[],"htm":1,"htu":2}`, `{"cnf":null,"response_type":1,"error":{}}`, `{"exp":1e30,"iat":-1}`, strings.Repeat("[", 200)}
	sigs := []string{"", "AAAA", b64(make([]byte, 64)), "=", b64([]byte(strings.Repeat("\xff", 64)))}
	okSet := provSet(pk{keyA(), "kA", ""})
	verifiers := map[string]func() token.Verifier{
		"set":      func() token.Verifier { return jwt.DefaultVerifier(okSet, algs) },
		"embedded": func() token.Verifier { return jwt.EmbeddedKeyVerifier(algs) },
		"no keys":  func() token.Verifier { return jwt.DefaultVerifier(provNil, algs) },
	}
	useAll := func(vn string, raw string) string {
		v := verifiers[vn]()
		if t, err := v.Parse(raw); err == nil && t != nil {
			_, _ = t.Algorithm()
			_, _ = t.Type()
			_, _ = t.KeyID()
			_, _ = t.PublicKey()
			_, _ = t.PublicKeyThumbPrint()
			var m map[string]any
			if err := t.Claims(publicOf(keyA()), &m); err == nil {
				return "claims of an unsigned token are released by Token.Claims"
			}
		}
		_ = v.Verify(raw)
		var m map[string]any
		if err := v.Claims(bg, raw, &m); err == nil || len(m) > 0 {
			return "claims of an unsigned token are released"
		}
		if r, err := jarm.Decoder(issA, v).Decode(bg, "c1", raw); err == nil || r != nil {
			return "an unsigned response is decoded"
		}
		if r, err := jwsreq.AuthorizationRequestDecoder(v).Decode(bg, raw); err == nil || r != nil {
			return "an unsigned request object is decoded"
		}
		if j, err := dpop.DefaultVerifier(inmemory.DPoPProofs(), v).Verify(bg, "POST", "https://x.example/t", raw); err == nil || j != "" {
			return "an unsigned proof is accepted"
		}
		return ""
	}
	full := c.Thorough()
	vnames := []string{"set", "embedded", "no keys"}
	rec := make([]int, len(dims))
	emit := func() {
		for _, typ := range []string{"jarm+jwt", "dpop+jwt", "oauth-authz-req+jwt"} {
			if rec[1] != 0 && typ != "jarm+jwt" {
				continue
			}
			var parts []string
			for i, n := range rec {
				if f := dims[i][n]; f.k != "" {
					parts = append(parts, fmt.Sprintf("%q:%s", f.k, strings.ReplaceAll(f.v, "%TYP%", typ)))
				}
			}
			h := "{" + strings.Join(parts, ",") + "}"
			for pi, p := range payloads {
				for si, s := range sigs {
					if c.Skip() {
						c.SkipN()
						continue
					}
					raw := b64([]byte(h)) + "." + b64([]byte(p)) + "." + s
					c.Case(fmt.Sprintf("token %v %s payload %d signature %d", rec, typ, pi, si), func() string {
						for _, vn := range vnames {
							c.Step()
							if e := useAll(vn, raw); e != "" {
								return vn + ": " + e
							}
						}
						c.Outcome("refused")
						return ""
					})
				}
			}
		}
	}
	var walk func(i, dev int)
	walk = func(i, dev int) {
		if i == len(dims) {
			emit()
			return
		}
		for n := range dims[i] {
			d := dev
			if n > 0 {
				d++
			}
			if !full && d > 2 {
				continue
			}
			rec[i] = n
			walk(i+1, d)
		}
		rec[i] = 0
	}
	walk(0, 0)
	// strings which are no tokens at all
	alphabet := []string{".", "~", "_", "e30", "A", "=", "\x00", "\xff", " ", "{}", "-"}
	n := c.Q(4, 5)
	var words func(prefix string, left int)
	secret := []byte(strings.Repeat("k", 32))
	words = func(prefix string, left int) {
		w := prefix
		c.Case(fmt.Sprintf("text %q", w), func() string {
			c.Step()
			for _, vn := range vnames {
				if e := useAll(vn, w); e != "" {
					return vn + ": " + e
				}
			}
			u := verifiable.UUIDVerifier(secret)
			if err := u.Verify(w); err == nil {
				return "the verifiable token is accepted"
			}
			if b, err := u.Extract(w); err == nil || len(b) > 0 {
				return "an identifier is extracted"
			}
			if err := generator.DefaultAuthorizationCode().Validate(bg, issA, w); err == nil {
				return "accepted as an authorization code"
			}
			if err := generator.DefaultDeviceCode().Validate(bg, issA, w); err == nil {
				return "accepted as a device code"
			}
			if err := generator.DefaultRequestURI().Validate(bg, issA, w); err == nil {
				return "accepted as a request_uri"
			}
			for _, q := range [][2]string{{w, verifierOK}, {challengeOK, w}, {w, w}} {
				if ok, _ := pkce.Validate(q[0], q[1]); ok {
					return "accepted by PKCE"
				}
			}
			p := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(algs))
			if j, err := p.Verify(bg, w, "https://x.example/t", w); err == nil || j != "" {
				return "accepted as a DPoP method"
			}
			if j, err := p.Verify(bg, "POST", w, "x.y.z"); err == nil || j != "" {
				return "accepted as a DPoP url"
			}
			if s, err := dpop.DefaultProver(&nopSerializer{}).Prove(w, "https://x.example/t"); err == nil || s != "" {
				return "a proof is made for no method"
			}
			c.Outcome("text refused")
			return ""
		})
		if left > 0 {
			for _, a := range alphabet {
				words(prefix+a, left-1)
			}
		}
	}
	words("", n)
	c.Bound("pieces per text", fmt.Sprint(n))

	// missing collaborators and messages
	var nilSer *nopSerializer
	var nilEnc *nopEncrypter
	now := uint64(1)
	tok := &tokenv1.Token{TokenId: "1", Metadata: &tokenv1.TokenMeta{Issuer: issA, Subject: "s", ClientId: "c", Scope: "a", Audience: "a", IssuedAt: now, NotBefore: now, ExpiresAt: now}}
	gens := []struct {
		n string
		f func(token.Serializer) token.Generator
	}{{"access", token.AccessToken}, {"refresh", token.RefreshToken}, {"assertion", token.ClientAssertion}, {"introspection", token.Introspection}}
	bad := func(key string, f func() (string, error)) {
		c.Case("missing: "+key, func() string {
			c.Step()
			s, err := f()
			c.Outcome("missing refused")
			if err == nil || s != "" {
				return "no error"
			}
			return ""
		})
	}
	sers := []struct {
		n string
		s token.Serializer
	}{{"nil serializer", nil}, {"typed nil serializer", nilSer}}
	for _, g := range gens {
		g := g
		for _, s := range sers {
			s := s
			bad(g.n+" "+s.n, func() (string, error) { return g.f(s.s).Generate(bg, tok) })
		}
		bad(g.n+" nil token", func() (string, error) { return g.f(&nopSerializer{}).Generate(bg, nil) })
		bad(g.n+" nil metadata", func() (string, error) { return g.f(&nopSerializer{}).Generate(bg, &tokenv1.Token{TokenId: "1"}) })
		bad(g.n+" failing serializer", func() (string, error) { return g.f(&failSerializer{err: errors.New("x")}).Generate(bg, tok) })
	}
	for _, s := range sers {
		s := s
		bad("encryption of "+s.n, func() (string, error) { return token.Encryption(s.s, &nopEncrypter{}).Serialize(bg, 1) })
		bad("dpop "+s.n, func() (string, error) { return dpop.DefaultProver(s.s).Prove("POST", "https://x.example") })
	}
	bad("encryption nil", func() (string, error) { return token.Encryption(&nopSerializer{}, nil).Serialize(bg, 1) })
	bad("encryption typed nil", func() (string, error) { return token.Encryption(&nopSerializer{}, nilEnc).Serialize(bg, 1) })
	bad("jarm nil response", func() (string, error) { return jarm.Encoder(&nopSerializer{}).Encode(bg, issA, nil) })
	bad("jarm no issuer", func() (string, error) {
		return jarm.Encoder(&nopSerializer{}).Encode(bg, "", &flowv1.AuthorizeResponse{Code: "c", State: "s", ClientId: "c1", ExpiresIn: 1})
	})
	bad("jwsreq nil request", func() (string, error) {
		return jwsreq.AuthorizationRequestEncoder(&nopSerializer{}).Encode(bg, nil)
	})
	for _, sg := range []struct {
		n string
		f func(p jwk.KeyProviderFunc) token.Serializer
	}{
		{"jwt", func(p jwk.KeyProviderFunc) token.Serializer { return jwt.AccessTokenSigner(jose.ES256, p) }},
		{"dpop", func(p jwk.KeyProviderFunc) token.Serializer { return jwt.DPoPSigner(jose.ES256, p) }},
		{"cwt", func(p jwk.KeyProviderFunc) token.Serializer { return cwt.AccessTokenSigner(cose.ES256, p) }},
	} {
		sg := sg
		bad(sg.n+" signer, nil provider", func() (string, error) { return sg.f(nil).Serialize(bg, map[string]any{"a": 1}) })
		bad(sg.n+" signer, nil key", func() (string, error) {
			return sg.f(func(context.Context) (*jose.JSONWebKey, error) { return nil, nil }).Serialize(bg, map[string]any{"a": 1})
		})
		bad(sg.n+" signer, empty key", func() (string, error) {
			return sg.f(func(context.Context) (*jose.JSONWebKey, error) { return &jose.JSONWebKey{KeyID: "k"}, nil }).Serialize(bg, map[string]any{"a": 1})
		})
		bad(sg.n+" signer, failing provider", func() (string, error) {
			return sg.f(func(context.Context) (*jose.JSONWebKey, error) {
				return &jose.JSONWebKey{Key: keyA(), KeyID: "kA"}, errors.New("down")
			}).Serialize(bg, map[string]any{"a": 1})
		})
		bad(sg.n+" signer, nil claims", func() (string, error) { return sg.f(provKey(keyA(), "kA")).Serialize(bg, nil) })
		bad(sg.n+" signer, typed nil claims", func() (string, error) {
			return sg.f(provKey(keyA(), "kA")).Serialize(bg, (*tokenv1.Token)(nil))
		})
		bad(sg.n+" signer, unserializable claims", func() (string, error) { return sg.f(provKey(keyA(), "kA")).Serialize(bg, make(chan int)) })
	}
	for l := 0; l < 16; l++ {
		l := l
		bad(fmt.Sprintf("pairwise salt of %d bytes", l), func() (string, error) { return pairwise.Hash(make([]byte, l)).Encode("s", "u") })
	}
}
