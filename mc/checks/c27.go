package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	cbor "github.com/fxamacker/cbor/v2"
	"github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/server/services/authorization"
	svctoken "zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage/inmemory"

	"zntr.io/solid/sdk/generator"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C27", Run: c27,
		Rule: "every combination of at most k deviations of a token's metadata (full product of the time fields), for every claims generator, against an independent acceptance rule and the exact claims; every grant end to end with real signers"})
}

// captureSerializer keeps what it is asked to sign.
type captureSerializer struct {
	got any
	n   int
}

func (s *captureSerializer) Serialize(_ context.Context, claims any) (string, error) {
	s.got = claims
	s.n++
	return fmt.Sprintf("signed-%d", s.n), nil
}
func (s *captureSerializer) ContentType() string { return "CAPTURED" }

// asJSON and asCBOR give the claims as a decoder sees them.
func asJSON(v any) map[string]any {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var m map[string]any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&m); err != nil {
		panic(err)
	}
	return exact(m).(map[string]any)
}

// exact makes whole numbers of JSON whole numbers of Go.
func exact(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k := range x {
			x[k] = exact(x[k])
		}
	case []any:
		for i := range x {
			x[i] = exact(x[i])
		}
	case json.Number:
		if n, err := strconv.ParseUint(string(x), 10, 64); err == nil {
			return n
		}
	}
	return v
}

func asCBOR(v any) map[any]any {
	b, err := cbor.Marshal(v)
	if err != nil {
		panic(err)
	}
	var m map[any]any
	if err := cbor.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	return m
}

func printable(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			return false
		}
	}
	return true
}

func c27(c *x.Ctx) {
	now := uint64(rt.Base.Unix())
	const h2, d14 = 2 * 3600, 14 * 86400
	texts := []string{"value", "two words", "", "caf\u00e9", "a\nb", "a\x00", "\x7f", "~!@"}
	urls := []struct {
		v  string
		ok bool
	}{{"https://as.example.com", true}, {"https://as.example.com/t", true}, {"http://localhost:8080", true}, {"", false}, {"not a url", false}, {"https://", false}, {"://x", false}, {"https://a b.example", false}}
	iats := []uint64{now, now - 1, now - 3600, now - 30*86400, 1, 0, now + 1, now + 3600, math.MaxUint64}
	// relative to iat
	type rel struct {
		name string
		f    func(iat, exp uint64) uint64
	}
	abs := func(v uint64) rel { return rel{fmt.Sprint(v), func(uint64, uint64) uint64 { return v }} }
	fromIat := func(d int64) rel {
		return rel{fmt.Sprintf("iat%+d", d), func(iat, _ uint64) uint64 { return iat + uint64(d) }}
	}
	fromExp := func(d int64) rel {
		return rel{fmt.Sprintf("exp%+d", d), func(_, exp uint64) uint64 { return exp + uint64(d) }}
	}
	exps := []rel{fromIat(3600), fromIat(1), fromIat(0), fromIat(-1), abs(0), fromIat(h2 - 1), fromIat(h2), fromIat(h2 + 1), fromIat(86400), fromIat(7 * 86400), fromIat(d14 - 1), fromIat(d14), fromIat(d14 + 1), fromIat(10 * d14), abs(math.MaxUint64)}
	nbfs := []rel{fromIat(1), fromIat(0), fromIat(-1), abs(0), fromExp(0), fromExp(-1), fromExp(1), abs(math.MaxUint64), abs(1)}
	cnfs := []*tokenv1.TokenConfirmation{nil, {Jkt: "thumb"}, {}}
	kinds := []struct {
		name string
		mk   func(token.Serializer) token.Generator
		max  uint64
		nbf  bool // not before, client and scope are required
		cnf  bool
		aud  bool // audience must be a url
	}{
		{"access token", token.AccessToken, h2, true, true, false},
		{"refresh token", token.RefreshToken, d14, true, false, false},
		{"client assertion", token.ClientAssertion, h2, false, false, true},
	}
	for _, k := range kinds {
		k := k
		type kindOf struct {
			typ tokenv1.TokenType
			st  tokenv1.TokenStatus
		}
		const active = tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
		sorts := []kindOf{{2, active}, {3, active}, {1, active}, {0, active}, {5, active}, {99, active}, {2, 0}, {2, 1}, {2, 3}, {2, 4}, {3, 4}, {2, 99}}
		one := func(key string, id string, m *tokenv1.TokenMeta, cnf *tokenv1.TokenConfirmation, issOK, audOK bool) {
			c.Case(k.name+": "+key, func() string {
				for _, sort := range sorts {
					if msg := func() string {
						want := id != "" && issOK && audOK && printable(m.Subject) && m.IssuedAt > 0 && m.IssuedAt <= now && m.ExpiresAt > 0 && m.ExpiresAt >= m.IssuedAt && m.ExpiresAt <= m.IssuedAt+k.max
						if k.nbf {
							want = want && printable(m.ClientId) && printable(m.Scope) && m.NotBefore > 0 && m.NotBefore >= m.IssuedAt && m.NotBefore <= m.ExpiresAt
						} else {
							want = want && m.Subject == m.Issuer
						}
						s := &captureSerializer{}
						t := &tokenv1.Token{TokenId: id, TokenType: sort.typ, Metadata: proto.Clone(m).(*tokenv1.TokenMeta), Status: sort.st}
						if cnf != nil {
							t.Confirmation = proto.Clone(cnf).(*tokenv1.TokenConfirmation)
						}
						before := proto.Clone(t)
						raw, err := k.mk(s).Generate(bg, t)
						c.Step()
						c.Outcome(fmt.Sprintf("%s accepted=%v", k.name, err == nil))
						c.State(fmt.Sprint(k.name, want, m.NotBefore >= m.IssuedAt, m.ExpiresAt >= m.NotBefore, m.IssuedAt <= now))
						if !proto.Equal(before, t) {
							return "the token given is changed"
						}
						if err != nil && sort != sorts[0] && raw == "" && s.n == 0 {
							return "" // a token of another type or state may be refused
						}
						if (err == nil) != want {
							return fmt.Sprintf("accepted=%v, want %v: iat=%d nbf=%d exp=%d (now %d): %v", err == nil, want, m.IssuedAt, m.NotBefore, m.ExpiresAt, now, err)
						}
						if err != nil {
							if raw != "" || s.n != 0 {
								return "a refused token is signed"
							}
							return ""
						}
						if s.n != 1 || raw != "signed-1" {
							return "the signed value is not what is returned"
						}
						wj := map[string]any{"iss": m.Issuer, "sub": m.Subject, "aud": m.Audience, "iat": m.IssuedAt, "exp": m.ExpiresAt, "jti": id}
						wc := map[any]any{uint64(1): m.Issuer, uint64(2): m.Subject, uint64(3): m.Audience, uint64(6): m.IssuedAt, uint64(4): m.ExpiresAt, uint64(7): id}
						if m.NotBefore != 0 {
							wj["nbf"] = m.NotBefore
							wc[uint64(5)] = m.NotBefore
						}
						if k.nbf {
							wj["client_id"], wj["scope"] = m.ClientId, m.Scope
							wc[uint64(100)], wc[uint64(101)] = m.ClientId, m.Scope
						}
						gj, gc := asJSON(s.got), asCBOR(s.got)
						if k.cnf && cnf != nil {
							if !reflect.DeepEqual(gj["cnf"], map[string]any{"jkt": cnf.Jkt}) {
								return fmt.Sprintf("the key confirmation is %v", gj["cnf"])
							}
							if _, ok := gc[uint64(102)]; !ok {
								return "the CWT has no key confirmation"
							}
							delete(gj, "cnf")
							delete(gc, uint64(102))
						}
						if !reflect.DeepEqual(gj, wj) {
							return fmt.Sprintf("JWT claims %v, want %v", gj, wj)
						}
						if !reflect.DeepEqual(gc, wc) {
							return fmt.Sprintf("CWT claims %v, want %v", gc, wc)
						}
						return ""
					}(); msg != "" {
						return fmt.Sprintf("type %d status %d: %s", sort.typ, sort.st, msg)
					}
				}
				return ""
			})
		}
		base := func() (*tokenv1.TokenMeta, bool, bool) {
			m := &tokenv1.TokenMeta{Issuer: "https://as.example.com", Subject: "alice", ClientId: "c1", Scope: "openid a", Audience: "https://api.example.com/x", IssuedAt: now, NotBefore: now + 1, ExpiresAt: now + 3600}
			if !k.nbf {
				m.Issuer, m.Subject = "c1", "c1"
			}
			return m, true, true
		}
		// texts made of the other fields, and words of the protocols
		{
			m, _, _ := base()
			made := append([]string{m.Issuer, m.Subject, m.ClientId, m.Scope, m.Audience, "id-1"}, words...)
			for _, sep := range []string{"|", ":", "/", "#", "@", "\\", " ", "~", "."} {
				for _, o := range []string{m.Issuer, m.ClientId, m.Audience, "alice"} {
					made = append(made, o+sep+"x", "x"+sep+o)
				}
			}
			for vi, v := range made {
				for _, field := range []string{"sub", "client", "scope", "aud", "id"} {
					m, a, b := base()
					id := "id-1"
					switch field {
					case "sub":
						m.Subject = v
						if !k.nbf {
							m.Issuer = v
						}
					case "client":
						m.ClientId = v
					case "scope":
						m.Scope = v
					case "aud":
						if !k.nbf {
							continue
						}
						m.Audience = v
					case "id":
						id = v
					}
					one(fmt.Sprintf("word %d as %s", vi, field), id, m, nil, a, b)
				}
			}
		}
		// the full product of the time fields
		for ii, iat := range iats {
			for _, e := range exps {
				exp := e.f(iat, 0)
				for _, n := range nbfs {
					for ci, cnf := range cnfs {
						m, a, b := base()
						m.IssuedAt, m.ExpiresAt, m.NotBefore = iat, exp, n.f(iat, exp)
						one(fmt.Sprintf("iat %d exp %s nbf %s cnf %d", ii, e.name, n.name, ci), "id-1", m, cnf, a, b)
					}
				}
			}
		}
		// texts
		for si, sub := range texts {
			for ci, cl := range texts {
				for pi, scope := range texts {
					for _, id := range []string{"id-1", "", " "} {
						m, a, b := base()
						m.ClientId, m.Scope = cl, scope
						m.Subject = sub
						if !k.nbf {
							m.Issuer = sub
							a = printable(sub)
						}
						one(fmt.Sprintf("subject %d client %d scope %d id %q", si, ci, pi, id), id, m, nil, a, b)
					}
				}
			}
		}
		for ui, u := range urls {
			for vi, v := range urls {
				m, a, b := base()
				if k.nbf {
					m.Issuer, a = u.v, u.ok
					m.Audience, b = v.v, printable(v.v)
				} else {
					m.Audience, b = u.v, u.ok
					m.Issuer = v.v
					m.Subject = v.v
					a = printable(v.v)
				}
				one(fmt.Sprintf("urls %d %d", ui, vi), "id-1", m, nil, a, b)
				if !k.nbf {
					m2 := proto.Clone(m).(*tokenv1.TokenMeta)
					m2.Subject = "other"
					one(fmt.Sprintf("urls %d %d, other subject", ui, vi), "id-1", m2, nil, a, b)
				}
			}
			for ti, t := range texts {
				m, a, b := base()
				if k.nbf {
					m.Issuer, a = u.v, u.ok
					m.Audience, b = t, printable(t)
				} else {
					m.Audience, b = u.v, u.ok
					m.Issuer = t
				}
				one(fmt.Sprintf("url %d audience %d", ui, ti), "id-1", m, nil, a, b)
			}
		}
	}
	c27usable(c, now)
	c27encrypt(c)
	c27opaque(c)
	c27stack(c)
	c27instance(c)
}

// c27usable: usability window and introspection claims.
func c27usable(c *x.Ctx, now uint64) {
	times := []uint64{0, 1, now - 3600, now - 1, now, now + 1, now + 3600, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1<<53 + 1, 1<<62 + 1, math.MaxInt64, math.MaxUint64}
	for si, st := range []tokenv1.TokenStatus{0, 1, 2, 3, 4, 5, 99, -1} {
		for ni, nbf := range times {
			for ei, exp := range times {
				st, nbf, exp := st, nbf, exp
				c.Case(fmt.Sprintf("usable status %d nbf %d exp %d", si, ni, ei), func() string {
					for typ := tokenv1.TokenType(0); typ < 7; typ++ {
						if msg := func() string {
							t := &tokenv1.Token{TokenType: typ, TokenId: "id-1", Status: st, Value: "secret-value", Confirmation: &tokenv1.TokenConfirmation{Jkt: "k"},
								Metadata: &tokenv1.TokenMeta{Issuer: issA, Subject: "alice", ClientId: "c1", Scope: "a b", Audience: "urn:x", IssuedAt: now - 10, NotBefore: nbf, ExpiresAt: exp}}
							c.Step()
							usable := token.IsUsable(t)
							if exp != now {
								if want := nbf <= now && exp > now; usable != want {
									return fmt.Sprintf("usable=%v, nbf %d, now %d, exp %d", usable, nbf, now, exp)
								}
							}
							s := &captureSerializer{}
							raw, err := token.Introspection(s).Generate(bg, t)
							if err != nil || raw != "signed-1" {
								return fmt.Sprint("introspection response not generated: ", err)
							}
							m := asJSON(s.got)
							in, _ := m["token_introspection"].(map[string]any)
							active := st == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && usable
							c.Outcome(fmt.Sprintf("introspection active=%v", active))
							c.State(fmt.Sprint(st, usable))
							want := map[string]any{"active": false}
							if active {
								want = map[string]any{"active": true, "iss": issA, "aud": "urn:x", "iat": now - 10, "exp": exp, "client_id": "c1", "scope": "a b", "sub": "alice", "jti": "id-1"}
							}
							if !reflect.DeepEqual(in, want) {
								return fmt.Sprintf("introspection %v, want %v", in, want)
							}
							if m["iss"] != issA || m["iat"] != now {
								return fmt.Sprintf("response issued by %v at %v", m["iss"], m["iat"])
							}
							if b, _ := json.Marshal(m); strings.Contains(string(b), "secret-value") {
								return "the response carries the token value"
							}
							return ""
						}(); msg != "" {
							return fmt.Sprintf("type %d: %s", typ, msg)
						}
					}
					return ""
				})
			}
		}
	}
	// an introspection says what the token says: nothing stands in for an empty or odd member
	odd := []string{"", "x", " ", "c1", "alice", issA, "caf\u00e9", "a b", "a,b", "<&>"}
	for _, field := range []string{"sub", "client_id", "scope", "aud", "jti", "iss"} {
		for _, v := range odd {
			for _, other := range []string{"", "full"} {
				for _, cnf := range []string{"", "k"} {
					field, v, other, cnf := field, v, other, cnf
					c.Case(fmt.Sprintf("introspected %s=%q others %q cnf %q", field, v, other, cnf), func() string {
						c.Step()
						vals := map[string]string{"sub": "alice", "client_id": "c1", "scope": "a b", "aud": "urn:x", "jti": "id-1", "iss": issA}
						if other == "" {
							for n := range vals {
								vals[n] = ""
							}
						}
						vals[field] = v
						t := &tokenv1.Token{TokenId: vals["jti"], Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: "secret-value",
							Metadata: &tokenv1.TokenMeta{Issuer: vals["iss"], Subject: vals["sub"], ClientId: vals["client_id"], Scope: vals["scope"], Audience: vals["aud"], IssuedAt: now - 10, ExpiresAt: now + 60}}
						if cnf != "" {
							t.Confirmation = &tokenv1.TokenConfirmation{Jkt: cnf}
						}
						s := &captureSerializer{}
						if _, err := token.Introspection(s).Generate(bg, t); err != nil {
							return ""
						}
						in, _ := asJSON(s.got)["token_introspection"].(map[string]any)
						for n, w := range vals {
							if g, has := in[n]; g != any(w) && (has || w != "") {
								return fmt.Sprintf("%s is %v, the token says %q", n, g, w)
							}
						}
						return ""
					})
				}
			}
		}
	}
	c.Case("usable nil", func() string {
		if token.IsUsable(nil) || token.IsUsable(&tokenv1.Token{Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE}) {
			return "a token without metadata is usable"
		}
		return ""
	})
}

type captureEncrypter struct {
	ct, tok string
	aad     []byte
	out     string
	err     error
	n       int
}

func (e *captureEncrypter) Encrypt(_ context.Context, ct, tok string, aad []byte) (string, error) {
	e.ct, e.tok, e.aad = ct, tok, append([]byte{}, aad...)
	e.n++
	return e.out, e.err
}

// c27encrypt: sign then encrypt, nothing released when either fails.
func c27encrypt(c *x.Ctx) {
	down := errors.New("down")
	for _, serr := range []error{nil, down, context.Canceled} {
		for _, sout := range []string{"signed", ""} {
			for _, eerr := range []error{nil, down, context.Canceled} {
				for _, eout := range []string{"sealed", ""} {
					for _, kind := range []string{"raw", "access token"} {
						serr, eerr := serr, eerr
						c.Case(fmt.Sprintf("encryption %v %q %v %q %s", serr, sout, eerr, eout, kind), func() string {
							s := &failSerializer{out: sout, err: serr}
							e := &captureEncrypter{out: eout, err: eerr}
							z := token.Encryption(s, e)
							c.Step()
							var out string
							var err error
							claims := map[string]any{"a": 1}
							if kind == "raw" {
								out, err = z.Serialize(bg, claims)
								if !reflect.DeepEqual(s.got, claims) {
									return "other claims are signed"
								}
							} else {
								n := uint64(rt.Now().Unix())
								out, err = token.AccessToken(z).Generate(bg, &tokenv1.Token{TokenId: "1", Metadata: &tokenv1.TokenMeta{Issuer: issA, Subject: "s", ClientId: "c", Scope: "a", Audience: "a", IssuedAt: n, NotBefore: n, ExpiresAt: n + 1}})
							}
							c.Outcome(fmt.Sprintf("encryption ok=%v", err == nil))
							if serr != nil || eerr != nil {
								want := serr
								if want == nil {
									want = eerr
								}
								if err == nil || out != "" || !errors.Is(err, want) {
									return fmt.Sprintf("a failure gives %q and %v", out, err)
								}
								if serr != nil && e.n != 0 {
									return "an unsigned token is encrypted"
								}
								return ""
							}
							if err != nil || out != eout {
								return fmt.Sprintf("result %q %v", out, err)
							}
							if e.n != 1 || e.tok != sout || e.ct != "X" || string(e.aad) != "urn:solid:token:sign-and-encrypt" {
								return fmt.Sprintf("encrypted %q as %q bound to %q", e.tok, e.ct, e.aad)
							}
							return ""
						})
					}
				}
			}
		}
	}
}

var opaqueRE = regexp.MustCompile(`^[A-Za-z0-9]{3}\.[A-Za-z0-9]{28}$`)

func c27opaque(c *x.Ctx) {
	n := c.Q(5000, 100000)
	c.Bound("values per opaque generator", fmt.Sprint(n))
	secret := []byte(strings.Repeat("k", 32))
	for ti, typ := range []tokenv1.TokenType{0, 1, 2, 3, 4, 5, 99} {
		typ := typ
		c.Case(fmt.Sprintf("opaque type %d", ti), func() string {
			seen := map[string]bool{}
			for i := 0; i < n; i++ {
				v, err := token.OpaqueToken().Generate(bg, &tokenv1.Token{TokenType: typ})
				c.R.Transitions++
				if err != nil || !opaqueRE.MatchString(v) {
					return fmt.Sprintf("%q %v", v, err)
				}
				if seen[v] {
					return "a value repeats"
				}
				seen[v] = true
			}
			return ""
		})
		c.Case(fmt.Sprintf("verifiable type %d", ti), func() string {
			seen := map[string]bool{}
			for i := 0; i < n/20; i++ {
				g := verifiable.Token(verifiable.UUIDv4Source(), secret)
				if i%2 == 1 {
					g = verifiable.Token(verifiable.UUIDv7Source(), secret)
				}
				v, err := g.Generate(bg, &tokenv1.Token{TokenType: typ})
				c.R.Transitions++
				if err != nil {
					return err.Error()
				}
				pre := map[tokenv1.TokenType]string{tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN: "sldat", tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN: "sldrt", tokenv1.TokenType_TOKEN_TYPE_PHANTOM_TOKEN: "sldpt"}[typ]
				if pre != "" && !strings.HasPrefix(v, pre+"_") {
					return fmt.Sprintf("%q does not announce its type", v)
				}
				if seen[v] {
					return "a value repeats"
				}
				seen[v] = true
				if err := verifiable.UUIDVerifier(secret).Verify(v); err != nil {
					return fmt.Sprintf("%q is refused: %v", v, err)
				}
				if verifiable.UUIDVerifier([]byte(strings.Repeat("j", 32))).Verify(v) == nil {
					return "accepted under another secret"
				}
			}
			return ""
		})
	}
	c.Case("verifiable nil token", func() string {
		if v, err := verifiable.Token(verifiable.UUIDv4Source(), secret).Generate(bg, nil); err == nil || v != "" {
			return "accepted"
		}
		return ""
	})
	c.Case("verifiable failing source", func() string {
		v, err := verifiable.Token(func() ([16]byte, error) { return [16]byte{1}, errors.New("down") }, secret).Generate(bg, &tokenv1.Token{})
		if err == nil || v != "" {
			return "accepted"
		}
		return ""
	})
}

// c27stack runs the grants with signed access and refresh tokens: what is signed is what is stored.
func c27stack(c *x.Ctx) {
	algs := []jose.SignatureAlgorithm{jose.ES256}
	v := func() token.Verifier { return jwt.DefaultVerifier(provSet(pk{keyA(), "kA", ""}), algs) }
	scopes := []string{"openid", "openid offline_access", "openid profile offline_access"}
	for _, iss := range []string{issA, issB} {
		for _, scope := range scopes {
			for _, jkt := range []string{"", "thumb"} {
				for _, steps := range []int{0, 1, 2} {
					iss, scope, jkt, steps := iss, scope, jkt, steps
					c.Case(fmt.Sprintf("signed grants %s %q %q %d", iss, scope, jkt, steps), func() string {
						a := newAS()
						cl := a.clients
						at := token.AccessToken(jwt.AccessTokenSigner(jose.ES256, provKey(keyA(), "kA")))
						rtg := token.RefreshToken(jwt.RefreshTokenSigner(jose.ES256, provKey(keyA(), "kA")))
						store := inmemory.Tokens()
						a.auth = authorization.New(cl, a.pars, a.codes, generator.DefaultAuthorizationCode(), generator.DefaultRequestURI())
						a.tok = svctoken.New(at, rtg, cl, a.pars, a.codes, a.devs, store, inmemory.Resources())
						check := func(t *tokenv1.Token, typ string, cnf bool) string {
							if t == nil {
								return "no token"
							}
							c.Step()
							tk, err := v().Parse(t.Value)
							if err != nil {
								return err.Error()
							}
							if got, _ := tk.Type(); got != typ {
								return fmt.Sprintf("token type %q, want %q", got, typ)
							}
							var m map[string]any
							if err := v().Claims(bg, t.Value, &m); err != nil {
								return "the token does not verify: " + err.Error()
							}
							st, err := store.GetByValue(bg, iss, t.Value)
							if err != nil {
								return "the token is not stored"
							}
							w := map[string]any{"iss": st.Metadata.Issuer, "sub": st.Metadata.Subject, "aud": st.Metadata.Audience, "iat": float64(st.Metadata.IssuedAt), "nbf": float64(st.Metadata.NotBefore), "exp": float64(st.Metadata.ExpiresAt), "jti": st.TokenId, "client_id": st.Metadata.ClientId, "scope": st.Metadata.Scope}
							if st.GetConfirmation().GetJkt() != jkt {
								return "the stored confirmation is " + st.GetConfirmation().GetJkt()
							}
							if cnf && jkt != "" {
								w["cnf"] = map[string]any{"jkt": jkt}
							}
							if !reflect.DeepEqual(m, w) {
								return fmt.Sprintf("signed %v, stored %v", m, w)
							}
							if m["iss"] != iss || m["sub"] != "alice" {
								return fmt.Sprintf("signed for %v at %v", m["sub"], m["iss"])
							}
							return ""
						}
						prompt := ""
						if strings.Contains(scope, "offline_access") {
							prompt = "consent"
						}
						q := exchangeReq(iss, "c1", a.mustCode(iss, "alice", "c1", scope, prompt), redir1, verifierOK)
						if jkt != "" {
							q.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: jkt}
						}
						r, err := a.tok.Token(bg, q)
						if err != nil {
							return "redemption refused: " + err.Error()
						}
						if e := check(r.AccessToken, "at+jwt", true); e != "" {
							return "access token: " + e
						}
						if prompt != "" {
							if e := check(r.RefreshToken, "rt+jwt", false); e != "" {
								return "refresh token: " + e
							}
							val := r.RefreshToken.Value
							for i := 0; i < steps; i++ {
								rt.Advance(7*24*time.Hour - 30*time.Minute)
								rq := refreshReq(iss, "c1", val)
								if jkt != "" {
									rq.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: jkt}
								}
								n, err := a.tok.Token(bg, rq)
								if err != nil {
									return "refresh refused: " + err.Error()
								}
								if e := check(n.AccessToken, "at+jwt", true); e != "" {
									return "refreshed access token: " + e
								}
								if e := check(n.RefreshToken, "rt+jwt", false); e != "" {
									return "rotated refresh token: " + e
								}
								val = n.RefreshToken.Value
							}
						}
						c.Outcome("signed grant")
						return ""
					})
				}
			}
		}
	}
}
