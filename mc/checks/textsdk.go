package checks

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/go-jose/go-jose/v4"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/client"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

// The special texts in the free fields of the SDK and of the storages.

// textIDs: a client of any name is authenticated as itself only.
func textIDs(c *x.Ctx, auth func(cs *faultClients, id, sub string) (*clientv1.AuthenticateResponse, error), registered func(id string) *clientv1.Client, more ...*clientv1.Client) {
	c.Bound("texts with special characters", fmt.Sprint(len(texts)))
	for n, id := range texts {
		for _, sub := range []string{id, strings.TrimSpace(id) + "x", strings.ToUpper(id), strings.ToLower(id), strings.TrimSpace(id), id + " "} {
			for _, known := range []bool{true, false} {
				id, sub, known := id, sub, known
				c.Case(fmt.Sprintf("text %d as client, %.30q registered=%v", n, sub, known), func() string {
					c.Step()
					cs := &faultClients{m: map[string]*clientv1.Client{}}
					for _, m := range more {
						cs.m[m.ClientId] = m
					}
					for _, t := range texts {
						if t != id || known {
							cs.m[t] = registered(t)
						}
					}
					if known {
						cs.m[sub] = registered(sub)
					}
					_, there := cs.m[id]
					res, err := auth(cs, id, sub)
					if m := authShape(res, err); m != "" {
						return m
					}
					c.Outcome(fmt.Sprintf("text accepted=%v", err == nil))
					if ok := there && id == sub; ok != (err == nil) {
						return fmt.Sprintf("accepted=%v as %q of %q: %v", err == nil, id, sub, err)
					}
					if err == nil && res.Client.ClientId != id {
						return "authenticated as " + res.Client.ClientId
					}
					return ""
				})
			}
		}
	}
}

// textResponses: a response arrives with the texts it was made of.
func textResponses(c *x.Ctx) {
	ver := jwt.DefaultVerifier(provSet(pk{keyA(), "kA", "sig"}), []jose.SignatureAlgorithm{jose.ES256})
	for n, t := range texts {
		for _, field := range []string{"state", "code", "client", "issuer", "error", "description", "error state"} {
			t, field := t, field
			c.Case(fmt.Sprintf("text %d as %s", n, field), func() string {
				c.Step()
				r := &flowv1.AuthorizeResponse{Issuer: issA, ClientId: "c1", Code: "code", State: "state", ExpiresIn: 60}
				switch field {
				case "state":
					r.State = t
				case "code":
					r.Code = t
				case "client":
					r.ClientId = t
				case "issuer":
					r.Issuer = t
				default:
					r.Error = &corev1.Error{Err: "invalid_request", ErrorDescription: "d"}
					switch field {
					case "error":
						r.Error.Err = t
					case "description":
						r.Error.ErrorDescription = t
					}
				}
				raw, err := jarm.Encoder(jwt.JARMSigner(jose.ES256, provKey(keyA(), "kA"))).Encode(bg, r.Issuer, r)
				if err != nil {
					return err.Error()
				}
				got, err := jarm.Decoder(r.Issuer, ver).Decode(bg, r.ClientId, raw)
				if err != nil {
					return err.Error()
				}
				if r.Error != nil {
					if got.Error == nil || got.Error.Err != r.Error.Err || got.Error.ErrorDescription != r.Error.ErrorDescription || got.Code != "" {
						return fmt.Sprintf("decoded %v, encoded %v", got, r)
					}
					return ""
				}
				if got.Code != r.Code || got.State != r.State || got.Issuer != r.Issuer || got.Error != nil {
					return fmt.Sprintf("decoded %v, encoded %v", got, r)
				}
				for _, o := range texts {
					if o == t {
						continue
					}
					if _, err := jarm.Decoder(r.Issuer, ver).Decode(bg, o, raw); err == nil && field == "client" {
						return fmt.Sprintf("a response for %q is decoded by %q", t, o)
					}
					if _, err := jarm.Decoder(o, ver).Decode(bg, r.ClientId, raw); err == nil && field == "issuer" {
						return fmt.Sprintf("a response of %q is decoded as one of %q", t, o)
					}
				}
				return ""
			})
		}
	}
}

// textClaims: what was signed is what is verified, whatever the texts and key ids are.
func textClaims(c *x.Ctx) {
	for n, t := range texts {
		t := t
		c.Case(fmt.Sprintf("text %d in claims", n), func() string {
			c.Step()
			in := map[string]any{"sub": t, "list": []any{t, "x"}, "obj": map[string]any{"k": t}}
			if t != "sub" {
				in["x-"+t] = "v"
			}
			raw, err := jwt.AccessTokenSigner(jose.ES256, provKey(keyA(), "kA")).Serialize(bg, in)
			if err != nil {
				return err.Error()
			}
			var out map[string]any
			if err := jwt.DefaultVerifier(provSet(pk{keyA(), "kA", "sig"}), []jose.SignatureAlgorithm{jose.ES256}).Claims(bg, raw, &out); err != nil {
				return err.Error()
			}
			if !reflect.DeepEqual(in, out) {
				return fmt.Sprintf("signed %v, got %v", in, out)
			}
			return ""
		})
		c.Case(fmt.Sprintf("text %d as key id", n), func() string {
			raw, err := jwt.AccessTokenSigner(jose.ES256, provKey(keyA(), t)).Serialize(bg, map[string]any{"sub": "s"})
			if err != nil {
				return err.Error()
			}
			if h, _, ok := jwsParts(raw); !ok || h["kid"] != t {
				return fmt.Sprintf("header %v", h)
			}
			for _, o := range texts {
				c.Step()
				var out map[string]any
				err := jwt.DefaultVerifier(provSet(pk{keyB(), o, "sig"}), []jose.SignatureAlgorithm{jose.ES256}).Claims(bg, raw, &out)
				if err == nil {
					return fmt.Sprintf("accepted with another key under the id %q", o)
				}
				err = jwt.DefaultVerifier(provSet(pk{keyA(), o, "sig"}), []jose.SignatureAlgorithm{jose.ES256}).Claims(bg, raw, &out)
				if (err == nil) != (o == t) {
					return fmt.Sprintf("signed under %q, verified=%v under %q: %v", t, err == nil, o, err)
				}
			}
			return ""
		})
	}
}

// textSubjects: no two sectors and subjects have one identifier.
func textSubjects(c *x.Ctx) {
	c.Case("texts", func() string {
		e := pairwise.Hash([]byte("0123456789abcdef"))
		seen := map[string]string{}
		for _, sec := range texts {
			for _, sub := range texts {
				c.Step()
				if strings.TrimSpace(sub) == "" {
					continue
				}
				r, err := e.Encode(sec, sub)
				if err != nil {
					return err.Error()
				}
				key := sec + strings.TrimSpace(sub)
				if o, ok := seen[r]; ok && o != key {
					return fmt.Sprintf("%.40q and %.40q have one identifier", o, key)
				}
				seen[r] = key
			}
		}
		return ""
	})
}

// textKeys: every text is a key of its own in every storage, at every issuer of its own.
func textKeys(c *x.Ctx) {
	type kv struct {
		name string
		put  func(iss, k, v string) error
		get  func(iss, k string) (string, error)
		del  func(iss, k string) error
	}
	stores := func() []kv {
		codes, pars, toks, devs, proofs := inmemory.AuthorizationCodeSessions(), inmemory.AuthorizationRequests(), inmemory.Tokens(), inmemory.DeviceCodeSessions(), inmemory.DPoPProofs()
		return []kv{
			{"codes", func(i, k, v string) error {
				_, err := codes.Register(bg, i, k, &sessionv1.AuthorizationCodeSession{Subject: v})
				return err
			}, func(i, k string) (string, error) {
				s, err := codes.Get(bg, i, k)
				return s.GetSubject(), err
			}, func(i, k string) error { return codes.Delete(bg, i, k) }},
			{"requests", func(i, k, v string) error {
				_, err := pars.Register(bg, i, k, &flowv1.AuthorizationRequest{State: v})
				return err
			}, func(i, k string) (string, error) {
				s, err := pars.Get(bg, i, k)
				return s.GetState(), err
			}, func(i, k string) error { return pars.Delete(bg, i, k) }},
			{"tokens", func(i, k, v string) error {
				return toks.Create(bg, i, &tokenv1.Token{TokenId: k, Value: "v " + k, Metadata: &tokenv1.TokenMeta{Subject: v}})
			}, func(i, k string) (string, error) {
				s, err := toks.Get(bg, i, k)
				if err == nil && s.TokenId != k {
					return "", fmt.Errorf("token %q is %q", k, s.TokenId)
				}
				return s.GetMetadata().GetSubject(), err
			}, func(i, k string) error { return toks.Delete(bg, i, k) }},
			{"token values", func(i, k, v string) error {
				return toks.Create(bg, i, &tokenv1.Token{TokenId: "id " + k, Value: k, Metadata: &tokenv1.TokenMeta{Subject: v}})
			}, func(i, k string) (string, error) {
				s, err := toks.GetByValue(bg, i, k)
				if err == nil && s.TokenId != "id "+k {
					return "", fmt.Errorf("token %q is %q", k, s.TokenId)
				}
				return s.GetMetadata().GetSubject(), err
			}, func(i, k string) error { return toks.Delete(bg, i, "id "+k) }},
			{"user codes", func(i, k, v string) error {
				_, err := devs.Register(bg, i, k, &sessionv1.DeviceCodeSession{Issuer: i, DeviceCode: "d " + k, Subject: sp(v)})
				return err
			}, func(i, k string) (string, error) {
				s, err := devs.GetByUserCode(bg, i, k)
				return s.GetSubject(), err
			}, nil},
			{"device codes", func(i, k, v string) error {
				_, err := devs.Register(bg, i, "u "+k, &sessionv1.DeviceCodeSession{Issuer: i, DeviceCode: k, Subject: sp(v)})
				return err
			}, func(i, k string) (string, error) {
				s, err := devs.GetByDeviceCode(bg, i, k)
				return s.GetSubject(), err
			}, nil},
			{"proofs", func(i, k, v string) error { return proofs.Register(bg, i+"\x01"+k) }, func(i, k string) (string, error) {
				ok, err := proofs.Exists(bg, i+"\x01"+k)
				if err == nil && !ok {
					err = storage.ErrNotFound
				}
				return "", err
			}, nil},
		}
	}
	for si, s := range stores() {
		for _, way := range []string{"keys", "issuers"} {
			si, way, name := si, way, s.name
			c.Case("texts as "+way+" of "+name, func() string {
				rt.ResetClock()
				s := stores()[si]
				at := func(t string) (string, string) {
					if way == "keys" {
						return issA, t
					}
					return t, "key"
				}
				var alive []string
				for _, t := range texts {
					if way == "issuers" && strings.Contains(t, "\x00") {
						continue
					}
					alive = append(alive, t)
				}
				all := func(gone int) string {
					for n, t := range alive {
						c.Step()
						i, k := at(t)
						v, err := s.get(i, k)
						if n < gone {
							if err == nil {
								return fmt.Sprintf("%.30q is there: %.30q", t, v)
							}
							continue
						}
						if err != nil || (v != "value of "+t && name != "proofs") {
							return fmt.Sprintf("%.30q is %.30q: %v", t, v, err)
						}
					}
					return ""
				}
				if m := all(len(alive)); m != "" {
					return "before: " + m
				}
				for n := len(alive) - 1; n >= 0; n-- {
					i, k := at(alive[n])
					if err := s.put(i, k, "value of "+alive[n]); err != nil {
						return err.Error()
					}
					if m := all(n); m != "" {
						return "while filling: " + m
					}
				}
				for n := range alive {
					if s.del == nil {
						break
					}
					i, k := at(alive[n])
					if err := s.del(i, k); err != nil {
						return err.Error()
					}
					if m := all(n + 1); m != "" {
						return "while removing: " + m
					}
				}
				return ""
			})
		}
	}
}

// textIntrospection: the members of an introspection answer arrive as they are.
func textIntrospection(c *x.Ctx) {
	run := func(doc map[string]any, want func(t *tokenv1.Token)) string {
		b, err := json.Marshal(doc)
		if err != nil {
			return err.Error()
		}
		s := newServer()
		s.body["/introspect"] = string(b)
		return onServer(s, func() string {
			c.Step()
			cl, err := client.HTTP(bg, srvBase, c30opts())
			if err != nil {
				return err.Error()
			}
			got, err := cl.Introspect(bg, "a", "tok")
			if err != nil {
				return err.Error()
			}
			w := &tokenv1.Token{Issuer: srvBase, Value: "tok", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{}}
			want(w)
			if g, e := string(mustJSON(got)), string(mustJSON(w)); g != e {
				return fmt.Sprintf("read %.300s, want %.300s", g, e)
			}
			return ""
		})
	}
	fields := []struct {
		name string
		set  func(t *tokenv1.Token, v string)
	}{
		{"iss", func(t *tokenv1.Token, v string) { t.Metadata.Issuer = v }}, {"sub", func(t *tokenv1.Token, v string) { t.Metadata.Subject = v }},
		{"aud", func(t *tokenv1.Token, v string) { t.Metadata.Audience = v }}, {"jti", func(t *tokenv1.Token, v string) { t.TokenId = v }},
		{"client_id", func(t *tokenv1.Token, v string) { t.Metadata.ClientId = v }}, {"scope", func(t *tokenv1.Token, v string) { t.Metadata.Scope = v }},
		{"acr", func(t *tokenv1.Token, v string) { t.Metadata.Acr = sp(v) }},
	}
	for n, t := range texts {
		for _, f := range fields {
			t, f := t, f
			c.Case(fmt.Sprintf("introspected text %d as %s", n, f.name), func() string {
				return run(map[string]any{"active": true, f.name: t}, func(w *tokenv1.Token) { f.set(w, t) })
			})
		}
		t := t
		c.Case(fmt.Sprintf("introspected text %d as key", n), func() string {
			return run(map[string]any{"active": true, "cnf": map[string]any{"jkt": t}}, func(w *tokenv1.Token) { w.Confirmation = &tokenv1.TokenConfirmation{Jkt: t} })
		})
	}
	for _, n := range []uint64{0, 1, math.MaxUint32, 1<<53 - 1, 1<<53 + 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64} {
		for _, f := range []string{"exp", "iat", "nbf", "auth_time"} {
			n, f := n, f
			c.Case(fmt.Sprintf("introspected %s %d", f, n), func() string {
				return run(map[string]any{"active": true, f: n}, func(w *tokenv1.Token) {
					switch f {
					case "exp":
						w.Metadata.ExpiresAt = n
					case "iat":
						w.Metadata.IssuedAt = n
					case "nbf":
						w.Metadata.NotBefore = n
					default:
						w.Metadata.AuthTime = &n
					}
				})
			})
		}
	}
}

// The numbers a time claim can be written with. What is far in the future is in the
// future, whatever the width of the type it is kept in.
var (
	futures = []json.Number{"2000000000", "2147483646", "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "9007199254740991",
		"9007199254740992", "9007199254740993", "4611686018427387904", "9151314442816847872", "9223372036854775806", "9223372036854775807", "9223372036854775808",
		"9223372038587265807", "9223372036854775809", "18446744072000000000", "18446744073709551614", "18446744073709551615"}
	beyond = []json.Number{"18446744073709551616", "18446744075442041616", "36893488147419103232", "1e10", "1e19", "1e20", "1e300", "2000000000.5", "4e9", "20000000000000000000000000"}
	pasts  = []json.Number{"-1", "-2147483648", "-4294967296", "-9223372036854775808", "-18446744073709551615", "-1e19", "0", "1", "0.5", "-0", "-0.5", "1e-3", "1000000000", "999999999.5"}
)

// extremeTimes: rule is exp (in the future), nbf (not in the future) or iat (about now);
// the claim is the only one which is not as it should be. Where a number of the future
// has no exact representation a refusal is as good as its reading.
func extremeTimes(c *x.Ctx, what, rule string, try func(n json.Number) error) {
	all := append(append(append([]json.Number{}, futures...), beyond...), pasts...)
	c.Bound("numbers of a time claim", fmt.Sprint(len(all)))
	for i, n := range all {
		i, n := i, n
		c.Case(fmt.Sprintf("%s is %s", what, n), func() string {
			c.Step()
			err := try(n)
			c.Outcome(fmt.Sprintf("time accepted=%v", err == nil))
			switch {
			case i >= len(futures)+len(beyond):
				if rule != "nbf" && err == nil {
					return "a time of the past is accepted"
				}
			case rule != "exp" && err == nil:
				return "a time of the future is accepted"
			case rule == "exp" && i < len(futures) && len(n) < 17 && err != nil:
				return err.Error()
			}
			return ""
		})
	}
}
