package checks

import (
	"context"
	"crypto/ecdsa"
	"encoding/json"
	"fmt"
	"io"
	"maps"
	"net/http"
	"reflect"
	"slices"
	"sort"
	"strings"

	"github.com/go-jose/go-jose/v4"
	"go.mozilla.org/cose"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/client"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/pkce"
	"zntr.io/solid/sdk/rfcerrors"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/services/device"
	svctoken "zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"

	"google.golang.org/protobuf/proto"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C31", Race: true, Run: c31,
		Rule: "every pair (triple) of operations x same/other party on shared services, stores, authenticators and SDK objects: every schedule within the preemption bound, with the race detector; answers and final state compared with those of every sequential order"})
}

// cworld is one set of shared objects: everything is the library's own, nothing of the harness
// is shared between the threads apart from what is prepared before they start.
type cworld struct {
	clients storage.Client
	codes   storage.AuthorizationCodeSession
	pars    storage.AuthorizationRequest
	devs    storage.DeviceCodeSession
	tokens  storage.Token
	proofs  storage.DPoP
	auth    services.Authorization
	tok     services.Token
	dev     services.Device
	ids     map[string]string // party -> client id
	regs    map[string]*clientv1.Client
	prep    map[string]string
	probes  map[string]func() string
	sdk     map[string]any
}

func newCW(at, rtg token.Generator) *cworld {
	w := &cworld{clients: inmemory.Clients(), codes: inmemory.AuthorizationCodeSessions(), pars: inmemory.AuthorizationRequests(), devs: inmemory.DeviceCodeSessions(),
		tokens: inmemory.Tokens(), proofs: inmemory.DPoPProofs(), ids: map[string]string{}, regs: map[string]*clientv1.Client{}, prep: map[string]string{}, probes: map[string]func() string{}, sdk: map[string]any{}}
	for _, p := range []string{"1", "2"} {
		cl := newClient("", tConf, gtCode, gtCC, gtDevice, gtRefresh, gtExchange)
		cl.ClientName = "client " + p
		cl.Jwks = c31jwks(p)
		id, err := w.clients.Register(bg, cl)
		if err != nil {
			panic(err)
		}
		w.ids[p] = id
		w.regs[id] = proto.Clone(cl).(*clientv1.Client)
	}
	w.auth = authorization.New(w.clients, w.pars, w.codes, generator.DefaultAuthorizationCode(), generator.DefaultRequestURI())
	w.tok = svctoken.New(at, rtg, w.clients, w.pars, w.codes, w.devs, w.tokens, inmemory.Resources())
	w.dev = device.New(w.clients, w.devs, generator.DefaultDeviceCode(), generator.DefaultDeviceUserCode())
	return w
}

var c31jwksB = map[string][]byte{}

// c31jwks: each party has a key of its own.
func c31jwks(p string) []byte {
	if c31jwksB[p] == nil {
		k, kid := c31key(p)
		c31jwksB[p] = jwks(jwkMap(k, false, map[string]any{"kid": kid}))
	}
	return c31jwksB[p]
}

func c31key(p string) (*ecdsa.PrivateKey, string) {
	if p == "2" {
		return keyB(), "kB"
	}
	return keyA(), "kA"
}

// shared returns a memoised artefact: threads of the same party and group use the same one.
func (w *cworld) shared(key string, f func() string) string {
	if v, ok := w.prep[key]; ok {
		return v
	}
	v := f()
	w.prep[key] = v
	return v
}

func obj[T any](w *cworld, key string, f func() T) T {
	if v, ok := w.sdk[key]; ok {
		return v.(T)
	}
	v := f()
	w.sdk[key] = v
	return v
}

// names replaces the generated identifiers of a world by stable ones.
func (w *cworld) names(s string) string {
	for p, id := range w.ids {
		s = strings.ReplaceAll(s, id, "client"+p)
	}
	return s
}

func (w *cworld) newCode(p string) string {
	q := authReq(w.ids[p])
	q.Scope, q.Prompt = "openid offline_access p"+p, sp("consent")
	r, err := w.auth.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: issA, Subject: "user" + p, Client: cli(w.ids[p]), Request: q})
	if err != nil {
		panic(err)
	}
	return r.Code
}

func (w *cworld) newTokens(p string) *flowv1.TokenResponse {
	r, err := w.tok.Token(bg, exchangeReq(issA, w.ids[p], w.newCode(p), redir1, verifierOK))
	if err != nil {
		panic(err)
	}
	return r
}

func (w *cworld) tokenProbe(key, value string) {
	w.probes[key] = func() string {
		t, err := w.tokens.GetByValue(bg, issA, value)
		if err != nil {
			return "gone"
		}
		return fmt.Sprint(t.Status, t.TokenType, w.names(t.Metadata.String()))
	}
}

// describe is the observable content of a token response.
func (w *cworld) describe(r *flowv1.TokenResponse, err error) string {
	if err != nil {
		return "refused"
	}
	var s []string
	for _, t := range []*tokenv1.Token{r.AccessToken, r.RefreshToken, r.IdToken} {
		if t == nil {
			s = append(s, "-")
			continue
		}
		st, e := w.tokens.GetByValue(bg, issA, t.Value)
		if e != nil {
			s = append(s, "not stored")
			continue
		}
		m := t.Metadata
		s = append(s, fmt.Sprintf("%s sub=%s client=%s scope=%s aud=%s exp=%d jkt=%s stored=%v", t.TokenType, m.Subject, w.names(m.ClientId), fieldsSet(m.Scope), w.names(m.Audience), m.ExpiresAt-uint64(rt.Base.Unix()), t.GetConfirmation().GetJkt(),
			st.Metadata.Subject == m.Subject && st.Metadata.ClientId == m.ClientId && st.Metadata.Scope == m.Scope && st.Metadata.Audience == m.Audience && st.TokenId == t.TokenId))
	}
	return strings.Join(s, " | ")
}

// cop prepares an operation of a party in the world and returns what its thread runs;
// the string it returns is rendered after all threads ended.
type cop struct {
	name string
	f    func(w *cworld, p string) func() func() string
}

func lit(s string) func() string { return func() string { return s } }

func c31service() []cop {
	return []cop{
		{"authorize", func(w *cworld, p string) func() func() string {
			q := authReq(w.ids[p])
			q.Scope = "openid p" + p
			return func() func() string {
				r, err := w.auth.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: issA, Subject: "user" + p, Client: cli(w.ids[p]), Request: q})
				return func() string {
					if err != nil {
						return "refused"
					}
					s, e := w.codes.Get(bg, issA, r.Code)
					if e != nil {
						return "code not stored"
					}
					return fmt.Sprintf("code for %s of %s scope %s state=%v redirect=%s", s.Subject, w.names(s.Request.ClientId), s.Request.Scope, r.State == q.State, r.RedirectUri)
				}
			}
		}},
		{"push", func(w *cworld, p string) func() func() string {
			q := authReq(w.ids[p])
			q.Scope = "openid p" + p
			return func() func() string {
				r, err := w.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: issA, Client: cli(w.ids[p]), Request: q})
				return func() string {
					if err != nil {
						return "refused"
					}
					s, e := w.pars.Get(bg, issA, r.RequestUri)
					if e != nil {
						return "request not stored"
					}
					return fmt.Sprintf("pushed %s scope %s", w.names(s.ClientId), s.Scope)
				}
			}
		}},
		{"authorize pushed", func(w *cworld, p string) func() func() string {
			u := w.shared("par"+p, func() string {
				q := authReq(w.ids[p])
				q.Scope = "openid p" + p
				r, err := w.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: issA, Client: cli(w.ids[p]), Request: q})
				if err != nil {
					panic(err)
				}
				w.probes["par"+p] = func() string {
					_, e := w.pars.Get(bg, issA, r.RequestUri)
					return fmt.Sprint(e == nil)
				}
				return r.RequestUri
			})
			return func() func() string {
				r, err := w.auth.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: issA, Subject: "user" + p, Client: cli(w.ids[p]), Request: &flowv1.AuthorizationRequest{ClientId: w.ids[p], RequestUri: sp(u)}})
				return func() string {
					if err != nil {
						return "refused"
					}
					s, e := w.codes.Get(bg, issA, r.Code)
					if e != nil {
						return "code not stored"
					}
					return fmt.Sprintf("code for %s of %s scope %s", s.Subject, w.names(s.Request.ClientId), s.Request.Scope)
				}
			}
		}},
		{"redeem", func(w *cworld, p string) func() func() string {
			code := w.shared("code"+p, func() string {
				v := w.newCode(p)
				w.probes["code"+p] = func() string { _, e := w.codes.Get(bg, issA, v); return fmt.Sprint(e == nil) }
				return v
			})
			return func() func() string {
				r, err := w.tok.Token(bg, exchangeReq(issA, w.ids[p], code, redir1, verifierOK))
				return func() string { return w.describe(r, err) }
			}
		}},
		{"refresh", func(w *cworld, p string) func() func() string {
			v := w.shared("rt"+p, func() string {
				r := w.newTokens(p)
				w.tokenProbe("rt"+p, r.RefreshToken.Value)
				return r.RefreshToken.Value
			})
			return func() func() string {
				r, err := w.tok.Token(bg, refreshReq(issA, w.ids[p], v))
				return func() string { return w.describe(r, err) }
			}
		}},
		{"rotate", func(w *cworld, p string) func() func() string {
			v := w.shared("old"+p, func() string {
				r := w.newTokens(p)
				t, _ := w.tokens.GetByValue(bg, issA, r.RefreshToken.Value)
				t.Metadata.ExpiresAt = uint64(rt.Base.Unix()) + 600
				t.TokenId, t.Value = t.TokenId+"-old", t.Value+"-old"
				if err := w.tokens.Create(bg, issA, t); err != nil {
					panic(err)
				}
				v := r.RefreshToken.Value + "-old"
				w.tokenProbe("old"+p, v)
				return v
			})
			return func() func() string {
				r, err := w.tok.Token(bg, refreshReq(issA, w.ids[p], v))
				return func() string { return w.describe(r, err) }
			}
		}},
		{"credentials", func(w *cworld, p string) func() func() string {
			return func() func() string {
				q := ccReq(issA, w.ids[p], sp("s"+p), sp("urn:api:"+p))
				q.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: "k" + p}
				r, err := w.tok.Token(bg, q)
				return func() string { return w.describe(r, err) }
			}
		}},
		{"exchange", func(w *cworld, p string) func() func() string {
			v := w.shared("at"+p, func() string {
				r := w.newTokens(p)
				w.tokenProbe("at"+p, r.AccessToken.Value)
				return r.AccessToken.Value
			})
			return func() func() string {
				r, err := w.tok.Token(bg, txReq(issA, w.ids[p], v, sp("openid"), sp(resURN)))
				return func() string { return w.describe(r, err) }
			}
		}},
		{"introspect", func(w *cworld, p string) func() func() string {
			v := w.shared("at"+p, func() string {
				r := w.newTokens(p)
				w.tokenProbe("at"+p, r.AccessToken.Value)
				return r.AccessToken.Value
			})
			return func() func() string {
				r, err := w.tok.Introspect(bg, &tokenv1.IntrospectRequest{Issuer: issA, Client: cli(w.ids[p]), Token: v})
				return func() string {
					if err != nil {
						return "refused"
					}
					return fmt.Sprint(r.Token.Status, r.Token.Metadata.GetSubject(), w.names(r.Token.Metadata.GetClientId()))
				}
			}
		}},
		{"revoke", func(w *cworld, p string) func() func() string {
			v := w.shared("at"+p, func() string {
				r := w.newTokens(p)
				w.tokenProbe("at"+p, r.AccessToken.Value)
				return r.AccessToken.Value
			})
			return func() func() string {
				_, err := w.tok.Revoke(bg, &tokenv1.RevokeRequest{Issuer: issA, Client: cli(w.ids[p]), Token: v})
				return w.revoked(v, err)
			}
		}},
		{"revoke refresh", func(w *cworld, p string) func() func() string {
			v := w.shared("rt"+p, func() string {
				r := w.newTokens(p)
				w.tokenProbe("rt"+p, r.RefreshToken.Value)
				return r.RefreshToken.Value
			})
			return func() func() string {
				_, err := w.tok.Revoke(bg, &tokenv1.RevokeRequest{Issuer: issA, Client: cli(w.ids[p]), Token: v})
				return w.revoked(v, err)
			}
		}},
		{"device", func(w *cworld, p string) func() func() string {
			return func() func() string {
				r, err := w.dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: w.ids[p], Scope: sp("s" + p)})
				return func() string {
					if err != nil {
						return "refused"
					}
					s, e := w.devs.GetByDeviceCode(bg, issA, r.DeviceCode)
					s2, e2 := w.devs.GetByUserCode(bg, issA, r.UserCode)
					if e != nil || e2 != nil {
						return "session not stored"
					}
					return fmt.Sprintf("session of %s scope %s same=%v", w.names(s.Client.GetClientId()), s.GetScope(), proto.Equal(s, s2))
				}
			}
		}},
		{"approve", func(w *cworld, p string) func() func() string {
			w.device(p)
			uc := w.prep["uc"+p]
			return func() func() string {
				_, err := w.dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: issA, UserCode: uc, Subject: "user" + p})
				return lit(fmt.Sprint(err == nil))
			}
		}},
		{"poll", func(w *cworld, p string) func() func() string {
			w.device(p)
			dc := w.prep["dc"+p]
			return func() func() string {
				r, err := w.tok.Token(bg, pollReq(issA, w.ids[p], dc))
				return func() string {
					if err != nil {
						return "refused " + r.GetError().GetErr()
					}
					return w.describe(r, err)
				}
			}
		}},
		{"register client", func(w *cworld, p string) func() func() string {
			return func() func() string {
				n := newClient("", tPub, gtCC)
				n.ClientName = "new " + p
				id, err := w.clients.Register(bg, n)
				return func() string {
					g, e := w.clients.Get(bg, id)
					return fmt.Sprint(err, e, g.GetClientName())
				}
			}
		}},
		{"find client", func(w *cworld, p string) func() func() string {
			return func() func() string {
				var g *clientv1.Client
				var err error
				rt.Quiet(func() { g, err = w.clients.GetByName(bg, "client "+p) })
				return lit(w.names(fmt.Sprint(err, g.GetClientId())))
			}
		}},
		{"authenticate", func(w *cworld, p string) func() func() string {
			a := obj(w, "pkjwt", func() clientauthentication.AuthenticationProcessor {
				return clientauthentication.PrivateKeyJWT(w.clients, []jose.SignatureAlgorithm{jose.ES256})
			})
			k, kid := c31key(p)
			asr := craft("ES256", k, map[string]any{"alg": "ES256", "kid": kid}, map[string]any{"iss": w.ids[p], "sub": w.ids[p], "aud": issA, "exp": rt.Base.Unix() + 60, "iat": rt.Base.Unix(), "jti": "j" + p})
			return func() func() string {
				r, err := a.Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: sp(atBearer), ClientAssertion: sp(asr)})
				return lit(w.names(fmt.Sprint(err, r.GetClient().GetClientId(), r.GetClient().GetClientName())))
			}
		}},
		{"attest", func(w *cworld, p string) func() func() string {
			a := obj(w, "attest", func() clientauthentication.AuthenticationProcessor {
				return clientauthentication.ClientAttestation(w.clients, []jose.SignatureAlgorithm{jose.ES256})
			})
			att := craft("ES256", keyA(), map[string]any{"alg": "ES256"}, map[string]any{"iss": w.ids["1"], "sub": w.ids[p], "exp": rt.Base.Unix() + 60, "jti": "aj", "iat": rt.Base.Unix(), "cnf": map[string]any{"jwk": jwkMap(keyB(), false, nil)}})
			pop := craft("ES256", keyB(), map[string]any{"alg": "ES256"}, map[string]any{"iss": w.ids[p], "aud": issA, "exp": rt.Base.Unix() + 60, "jti": "pj", "iat": rt.Base.Unix()})
			return func() func() string {
				r, err := a.Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: sp(atAttestation), ClientAssertion: sp(att + "~" + pop)})
				return lit(w.names(fmt.Sprint(err, r.GetClient().GetClientId(), r.GetClient().GetClientName())))
			}
		}},
		{"dpop verify", func(w *cworld, p string) func() func() string {
			v := obj(w, "dpop", func() dpop.Verifier {
				return dpop.DefaultVerifier(w.proofs, jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.ES256}))
			})
			k, _ := c31key(p)
			pr := w.shared("proof"+p, func() string { return mkProof(k, "jti-of-party-"+p, rt.Base.Unix(), "POST", issA+"/token") })
			return func() func() string {
				jkt, err := v.Verify(bg, "POST", issA+"/token", pr)
				return lit(fmt.Sprint(err == nil, err != nil || jkt == thumb(k)))
			}
		}},
	}
}

// c31stores are the operations of the storages themselves, grouped by storage.
func c31stores() map[string][]cop {
	ok := func(err error) func() string { return lit(fmt.Sprint(err == nil)) }
	quietly := func(error) func() string { return lit("done") }
	token := func(w *cworld, p string) *tokenv1.Token {
		t := &tokenv1.Token{Issuer: issA, TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, TokenId: "stored-id-" + p, Value: "stored-value-" + p, Metadata: &tokenv1.TokenMeta{Subject: "user" + p, ClientId: "c" + p}}
		w.shared("stored token"+p, func() string {
			if err := w.tokens.Create(bg, issA, t); err != nil {
				panic(err)
			}
			w.tokenProbe("stored token"+p, t.Value)
			return ""
		})
		return t
	}
	stToken := func(t *tokenv1.Token, err error) func() string {
		return func() string { return fmt.Sprint(err == nil, t.GetStatus(), t.GetMetadata().GetSubject()) }
	}
	code := func(w *cworld, p string) *sessionv1.AuthorizationCodeSession {
		s := &sessionv1.AuthorizationCodeSession{Issuer: issA, Subject: "user" + p, Request: authReq("c" + p)}
		w.shared("stored code"+p, func() string {
			if _, err := w.codes.Register(bg, issA, "stored-code-"+p, s); err != nil {
				panic(err)
			}
			w.probes["stored code"+p] = func() string {
				g, err := w.codes.Get(bg, issA, "stored-code-"+p)
				return fmt.Sprint(err == nil, g.GetSubject())
			}
			return ""
		})
		return s
	}
	par := func(w *cworld, p string) *flowv1.AuthorizationRequest {
		s := authReq("c" + p)
		w.shared("stored request"+p, func() string {
			if _, err := w.pars.Register(bg, issA, "stored-request-"+p, s); err != nil {
				panic(err)
			}
			w.probes["stored request"+p] = func() string {
				g, err := w.pars.Get(bg, issA, "stored-request-"+p)
				return fmt.Sprint(err == nil, g.GetClientId())
			}
			return ""
		})
		return s
	}
	dev := func(w *cworld, p string) *sessionv1.DeviceCodeSession {
		s := &sessionv1.DeviceCodeSession{Issuer: issA, Client: newClient("c"+p, tConf), DeviceCode: "stored-dc-" + p, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING,
			Request: &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: "c" + p}, ExpiresAt: uint64(rt.Base.Unix()) + 60}
		w.shared("stored session"+p, func() string {
			if _, err := w.devs.Register(bg, issA, "stored-uc-"+p, s); err != nil {
				panic(err)
			}
			w.probes["stored session"+p] = func() string {
				g, err := w.devs.GetByUserCode(bg, issA, "stored-uc-"+p)
				return fmt.Sprint(err == nil, g.GetStatus(), g.GetSubject())
			}
			return ""
		})
		return s
	}
	stDev := func(s *sessionv1.DeviceCodeSession, err error) func() string {
		return func() string { return fmt.Sprint(err == nil, s.GetStatus(), s.GetSubject()) }
	}
	return map[string][]cop{
		"tokens": {
			{"create", func(w *cworld, p string) func() func() string {
				t := proto.Clone(token(w, p)).(*tokenv1.Token)
				return func() func() string { return ok(w.tokens.Create(bg, issA, t)) }
			}},
			{"get", func(w *cworld, p string) func() func() string {
				token(w, p)
				return func() func() string { return stToken(w.tokens.Get(bg, issA, "stored-id-"+p)) }
			}},
			{"by value", func(w *cworld, p string) func() func() string {
				token(w, p)
				return func() func() string { return stToken(w.tokens.GetByValue(bg, issA, "stored-value-"+p)) }
			}},
			{"revoke", func(w *cworld, p string) func() func() string {
				token(w, p)
				return func() func() string { return quietly(w.tokens.Revoke(bg, issA, "stored-id-"+p)) }
			}},
			{"delete", func(w *cworld, p string) func() func() string {
				token(w, p)
				return func() func() string { return quietly(w.tokens.Delete(bg, issA, "stored-id-"+p)) }
			}},
		},
		"codes": {
			{"register", func(w *cworld, p string) func() func() string {
				s := proto.Clone(code(w, p)).(*sessionv1.AuthorizationCodeSession)
				return func() func() string { _, err := w.codes.Register(bg, issA, "stored-code-"+p, s); return ok(err) }
			}},
			{"get", func(w *cworld, p string) func() func() string {
				code(w, p)
				return func() func() string {
					s, err := w.codes.Get(bg, issA, "stored-code-"+p)
					return func() string { return fmt.Sprint(err == nil, s.GetSubject()) }
				}
			}},
			{"delete", func(w *cworld, p string) func() func() string {
				code(w, p)
				return func() func() string { return quietly(w.codes.Delete(bg, issA, "stored-code-"+p)) }
			}},
		},
		"pushed requests": {
			{"register", func(w *cworld, p string) func() func() string {
				s := proto.Clone(par(w, p)).(*flowv1.AuthorizationRequest)
				return func() func() string { _, err := w.pars.Register(bg, issA, "stored-request-"+p, s); return ok(err) }
			}},
			{"get", func(w *cworld, p string) func() func() string {
				par(w, p)
				return func() func() string {
					s, err := w.pars.Get(bg, issA, "stored-request-"+p)
					return func() string { return fmt.Sprint(err == nil, s.GetClientId()) }
				}
			}},
			{"delete", func(w *cworld, p string) func() func() string {
				par(w, p)
				return func() func() string { return quietly(w.pars.Delete(bg, issA, "stored-request-"+p)) }
			}},
		},
		"device sessions": {
			{"register", func(w *cworld, p string) func() func() string {
				s := proto.Clone(dev(w, p)).(*sessionv1.DeviceCodeSession)
				return func() func() string { _, err := w.devs.Register(bg, issA, "stored-uc-"+p, s); return ok(err) }
			}},
			{"by user code", func(w *cworld, p string) func() func() string {
				dev(w, p)
				return func() func() string { return stDev(w.devs.GetByUserCode(bg, issA, "stored-uc-"+p)) }
			}},
			{"by device code", func(w *cworld, p string) func() func() string {
				dev(w, p)
				return func() func() string { return stDev(w.devs.GetByDeviceCode(bg, issA, "stored-dc-"+p)) }
			}},
			{"validate", func(w *cworld, p string) func() func() string {
				s := proto.Clone(dev(w, p)).(*sessionv1.DeviceCodeSession)
				s.Status, s.Subject = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED, sp("user"+p)
				return func() func() string { return quietly(w.devs.Validate(bg, issA, "stored-uc-"+p, s)) }
			}},
			{"delete", func(w *cworld, p string) func() func() string {
				dev(w, p)
				return func() func() string { return quietly(w.devs.Delete(bg, issA, "stored-uc-"+p)) }
			}},
		},
		"proofs": {
			{"register", func(w *cworld, p string) func() func() string {
				return func() func() string { return quietly(w.proofs.Register(bg, "stored-proof-"+p)) }
			}},
			{"exists", func(w *cworld, p string) func() func() string {
				return func() func() string {
					f, err := w.proofs.Exists(bg, "stored-proof-"+p)
					return lit(fmt.Sprint(f, err == nil))
				}
			}},
			{"delete", func(w *cworld, p string) func() func() string {
				return func() func() string { return quietly(w.proofs.Delete(bg, "stored-proof-"+p)) }
			}},
		},
		"clients": {
			{"get", func(w *cworld, p string) func() func() string {
				return func() func() string {
					g, err := w.clients.Get(bg, w.ids[p])
					return func() string { return w.names(fmt.Sprint(err == nil, g.GetClientId())) }
				}
			}},
			{"by name", func(w *cworld, p string) func() func() string {
				return func() func() string {
					var g *clientv1.Client
					var err error
					rt.Quiet(func() { g, err = w.clients.GetByName(bg, "client "+p) })
					return func() string { return w.names(fmt.Sprint(err == nil, g.GetClientId())) }
				}
			}},
			{"register", func(w *cworld, p string) func() func() string {
				n := newClient("", tPub, gtCC)
				n.ClientName = "stored " + p
				return func() func() string {
					id, err := w.clients.Register(bg, n)
					return func() string {
						g, e := w.clients.Get(bg, id)
						return fmt.Sprint(err, e, g.GetClientName())
					}
				}
			}},
		},
		"resources": {
			{"get", func(w *cworld, p string) func() func() string {
				r := obj(w, "resources", inmemory.Resources)
				return func() func() string {
					g, err := r.GetByURI(bg, map[string]string{"1": resURN, "2": "urn:other"}[p])
					return func() string { return fmt.Sprint(err == nil, g.GetUrn()) }
				}
			}},
		},
	}
}

// revoked: a revocation overtaken by another one of the same token may report an error, its
// effect is there all the same.
func (w *cworld) revoked(v string, err error) func() string {
	return func() string {
		t, e := w.tokens.GetByValue(bg, issA, v)
		return fmt.Sprint(err == nil || (e == nil && t.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED))
	}
}

// device prepares a device session of the party.
func (w *cworld) device(p string) {
	w.shared("dc"+p, func() string {
		r, err := w.dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: w.ids[p], Scope: sp("openid s" + p), Audience: sp("urn:api:" + p)})
		if err != nil {
			panic(err)
		}
		w.prep["uc"+p] = r.UserCode
		w.probes["dev"+p] = func() string {
			s, e := w.devs.GetByDeviceCode(bg, issA, r.DeviceCode)
			return fmt.Sprint(e == nil, s.GetStatus(), s.GetSubject())
		}
		return r.DeviceCode
	})
}

// staticServer answers every request without any shared state.
type staticServer struct{ meta, keys string }

func (s staticServer) RoundTrip(r *http.Request) (*http.Response, error) {
	b := s.keys
	switch {
	case strings.HasSuffix(r.URL.Path, "-server"):
		b = s.meta
	case r.URL.Path == "/token":
		b = `{"access_token":"of ` + r.FormValue("client_assertion") + `"}`
	case r.URL.Path == "/introspect":
		b = `{"active":true,"sub":"of ` + r.FormValue("token") + `"}`
	}
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(b)), Request: r}, nil
}

func c31sdk() []cop {
	algs := []jose.SignatureAlgorithm{jose.ES256}
	claims := func(raw string) string {
		_, m, ok := jwsParts(raw)
		if !ok {
			return "not a token"
		}
		delete(m, "jti")
		b, _ := json.Marshal(m)
		return string(b)
	}
	set := func(context.Context) (*jose.JSONWebKeySet, error) {
		return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{{Key: &keyA().PublicKey, KeyID: "kA"}, {Key: &keyB().PublicKey, KeyID: "kB"}}}, nil
	}
	cl := func(w *cworld) client.Client {
		return obj(w, "client", func() client.Client {
			v, err := client.HTTP(bg, srvBase, c30opts())
			if err != nil {
				panic(err)
			}
			return v
		})
	}
	gen := func(name string, mk func() token.Generator, show func(string) string) cop {
		return cop{name, func(w *cworld, p string) func() func() string {
			g := obj(w, name, mk)
			t := &tokenv1.Token{Issuer: issA, TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, TokenId: "id" + p, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{Issuer: issA, Subject: "user" + p, IssuedAt: 5, NotBefore: 5, ExpiresAt: uint64(rt.Base.Unix()) + 60, ClientId: "c" + p, Scope: "s" + p, Audience: "urn:" + p}, Confirmation: &tokenv1.TokenConfirmation{Jkt: "k" + p}}
			return func() func() string {
				v, err := g.Generate(bg, t)
				return func() string {
					if err != nil {
						return err.Error()
					}
					return show(v)
				}
			}
		}}
	}
	vsec := []byte(strings.Repeat("k", 32))
	return []cop{
		gen("access token", func() token.Generator {
			return token.AccessToken(jwt.AccessTokenSigner(jose.ES256, provKey(keyA(), "kA")))
		}, claims),
		gen("refresh token", func() token.Generator {
			return token.RefreshToken(jwt.RefreshTokenSigner(jose.ES256, provKey(keyA(), "kA")))
		}, claims),
		gen("cwt token", func() token.Generator {
			a := cose.ES256
			return token.AccessToken(cwt.AccessTokenSigner(a, provKey(keyA(), "kA")))
		}, func(s string) string { return fmt.Sprint(len(s) > 80) }),
		gen("introspection token", func() token.Generator {
			return token.Introspection(jwt.TokenIntrospection(jose.ES256, provKey(keyA(), "kA")))
		}, claims),
		gen("encrypted token", func() token.Generator {
			return token.AccessToken(token.Encryption(jwt.AccessTokenSigner(jose.ES256, provKey(keyA(), "kA")), plainEncrypter{}))
		}, claims),
		gen("opaque token", func() token.Generator { return token.OpaqueToken() }, func(s string) string { return fmt.Sprint(opaqueRE.MatchString(s)) }),
		gen("verifiable token", func() token.Generator { return quietGen{verifiable.Token(verifiable.UUIDv4Source(), vsec)} }, func(s string) string { return fmt.Sprint(verifiable.UUIDVerifier(vsec).Verify(s)) }),
		gen("verifiable token v7", func() token.Generator { return quietGen{verifiable.Token(verifiable.UUIDv7Source(), vsec)} }, func(s string) string { return fmt.Sprint(verifiable.UUIDVerifier(vsec).Verify(s)) }),
		{"verify token", func(w *cworld, p string) func() func() string {
			v := obj(w, "jwt verifier", func() token.Verifier { return jwt.DefaultVerifier(set, algs) })
			k, kid := c31key(p)
			raw := craft("ES256", k, map[string]any{"alg": "ES256", "kid": kid}, map[string]any{"sub": "user" + p})
			return func() func() string {
				var m map[string]any
				err := v.Claims(bg, raw, &m)
				return lit(fmt.Sprint(err, m))
			}
		}},
		{"jarm", func(w *cworld, p string) func() func() string {
			e := obj(w, "jarm enc", func() jarm.ResponseEncoder { return jarm.Encoder(jwt.JARMSigner(jose.ES256, provKey(keyA(), "kA"))) })
			d := obj(w, "jarm dec", func() jarm.ResponseDecoder { return jarm.Decoder(issA, jwt.DefaultVerifier(set, algs)) })
			return func() func() string {
				s, err := e.Encode(bg, issA, &flowv1.AuthorizeResponse{ClientId: "c" + p, Code: "code" + p, State: "state" + p, Issuer: issA, ExpiresIn: 60})
				if err != nil {
					return lit(err.Error())
				}
				r, err := d.Decode(bg, "c"+p, s)
				return lit(fmt.Sprint(err, r.GetCode(), r.GetState()))
			}
		}},
		{"request object", func(w *cworld, p string) func() func() string {
			e := obj(w, "req enc", func() jwsreq.AuthorizationEncoder {
				return jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(jose.ES256, provKey(keyA(), "kA")))
			})
			d := obj(w, "req dec", func() jwsreq.AuthorizationDecoder {
				return jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(set, algs))
			})
			q := authReq("c" + p)
			return func() func() string {
				s, err := e.Encode(bg, q)
				if err != nil {
					return lit(err.Error())
				}
				r, err := d.Decode(bg, s)
				return lit(fmt.Sprint(err, proto.Equal(r, q)))
			}
		}},
		{"dpop prove", func(w *cworld, p string) func() func() string {
			pr := obj(w, "prover", func() dpop.Prover {
				return dpop.DefaultProver(jwt.DPoPSigner(jose.ES256, provKey(keyA(), "kA")))
			})
			return func() func() string {
				s, err := pr.Prove("POST", "https://"+p+".example/x", dpop.WithTokenValue("t"+p))
				return func() string { return fmt.Sprint(err, claims(s)) }
			}
		}},
		{"pairwise", func(w *cworld, p string) func() func() string {
			e := obj(w, "pairwise", func() pairwise.Encoder { return pairwise.Hash([]byte("0123456789abcdefghij")) })
			return func() func() string { v, err := e.Encode("sector", "user"+p); return lit(fmt.Sprint(v, err)) }
		}},
		{"verify verifiable", func(w *cworld, p string) func() func() string {
			v := obj(w, "vver", func() verifiable.Verifier { return verifiable.UUIDVerifier(vsec) })
			s := w.shared("vt"+p, func() string {
				s, _ := verifiable.Token(verifiable.UUIDv4Source(), vsec).Generate(bg, &tokenv1.Token{TokenType: 1})
				return s
			})
			return func() func() string { return lit(fmt.Sprint(v.Verify(s))) }
		}},
		{"pkce", func(w *cworld, p string) func() func() string {
			return func() func() string {
				v, ch, err := pkce.CodeVerifier()
				return lit(fmt.Sprint(err, len(v), ch == s256(v)))
			}
		}},
		{"error", func(w *cworld, p string) func() func() string {
			return func() func() string {
				e := rfcerrors.InvalidRequest().State("state" + p).Build()
				f := rfcerrors.InvalidRequest().Build()
				return lit(e.GetState() + "," + f.GetState())
			}
		}},
		{"client keys", func(w *cworld, p string) func() func() string {
			v := cl(w)
			return func() func() string {
				s, _, err := v.PublicKeys(bg)
				rt.P()
				k := kidsOf(s)
				rt.P()
				return func() string { return fmt.Sprint(err, k, kidsOf(s)) }
			}
		}},
		{"client credentials", func(w *cworld, p string) func() func() string {
			v := cl(w)
			return func() func() string {
				t, err := v.ClientCredentials(bg, "asr"+p)
				if err != nil {
					return lit(err.Error())
				}
				return lit(t.AccessToken)
			}
		}},
		{"client introspect", func(w *cworld, p string) func() func() string {
			v := cl(w)
			return func() func() string {
				t, err := v.Introspect(bg, "asr", "tok"+p)
				return lit(fmt.Sprint(err, t.GetMetadata().GetSubject()))
			}
		}},
		{"client assertion", func(w *cworld, p string) func() func() string {
			v := cl(w)
			return func() func() string {
				s, err := v.Assertion()
				return func() string { return fmt.Sprint(err, claims(s)) }
			}
		}},
	}
}

type plainEncrypter struct{}

func (plainEncrypter) Encrypt(_ context.Context, _, tok string, _ []byte) (string, error) {
	return tok, nil
}

// quietGen: the number of statements executed at the end depends on the random value.
type quietGen struct{ in token.Generator }

func (q quietGen) Generate(ctx context.Context, t *tokenv1.Token) (v string, err error) {
	rt.QuietAfter(28, func() { v, err = q.in.Generate(ctx, t) })
	return
}

func c31(c *x.Ctx) {
	opaque := func() *cworld { return newCW(token.OpaqueToken(), token.OpaqueToken()) }
	signed := func() *cworld {
		return newCW(token.AccessToken(jwt.AccessTokenSigner(jose.ES256, provKey(keyA(), "kA"))), token.RefreshToken(jwt.RefreshTokenSigner(jose.ES256, provKey(keyA(), "kA"))))
	}
	verif := func() *cworld {
		s := []byte(strings.Repeat("k", 32))
		return newCW(quietGen{verifiable.Token(verifiable.UUIDv4Source(), s)}, quietGen{verifiable.Token(verifiable.UUIDv7Source(), s)})
	}
	type who struct {
		op cop
		p  string
	}
	srv := staticServer{metaJSON(srvBase), keysJSON(0, "k1")}
	od, oc := http.DefaultTransport, http.DefaultClient.Transport
	http.DefaultTransport, http.DefaultClient.Transport = srv, nil
	defer func() { http.DefaultTransport, http.DefaultClient.Transport = od, oc }()

	final := func(w *cworld, fs []func() string) []string {
		var out []string
		for _, f := range fs {
			out = append(out, f())
		}
		var ks []string
		for k := range w.probes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, k+"="+w.probes[k]())
		}
		for id, r := range w.regs {
			if g, err := w.clients.Get(bg, id); err != nil || !proto.Equal(g, r) {
				out = append(out, "a registered client was altered")
			}
		}
		return out
	}
	run := func(kind string, mk func() *cworld, key string, bound int, ops ...who) {
		var allowed [][]string // computed on first use
		sequential := func() {
			n := make([]int, len(ops))
			for i := range n {
				n[i] = 1
			}
			for _, ord := range orders(n) {
				rt.ResetClock()
				w := mk()
				var th []func() func() string
				for _, o := range ops {
					th = append(th, o.op.f(w, o.p))
				}
				fs := make([]func() string, len(ops))
				for _, t := range ord {
					fs[t] = th[t]()
				}
				allowed = append(allowed, final(w, fs))
			}
		}
		c.Whole(kind, kind+": "+key, bound, func() *x.World {
			if allowed == nil {
				sequential()
			}
			w := mk()
			fs := make([]func() string, len(ops))
			var th []func()
			for i, o := range ops {
				i, f := i, o.op.f(w, o.p)
				th = append(th, func() { fs[i] = f() })
			}
			return &x.World{Threads: th, Check: func() string {
				got := final(w, fs)
				for _, a := range allowed {
					if reflect.DeepEqual(a, got) {
						return ""
					}
				}
				return fmt.Sprintf("answers and state %q are those of no sequential order %q", got, allowed)
			}, Outcome: func() string { return "sequential" }}
		})
	}
	sv, sd := c31service(), c31sdk()
	b := c.Q(1, 2)
	for i := range sv {
		for j := i; j < len(sv); j++ {
			for _, p := range []string{"1", "2"} {
				b := b
				if p == "2" {
					b = 1
				}
				run("services", opaque, sv[i].name+" || "+sv[j].name+", party "+p, b, who{sv[i], "1"}, who{sv[j], p})
				if c.Thorough() || i == j {
					run("services, signed tokens", signed, sv[i].name+" || "+sv[j].name+", party "+p, 1, who{sv[i], "1"}, who{sv[j], p})
					run("services, verifiable tokens", verif, sv[i].name+" || "+sv[j].name+", party "+p, 1, who{sv[i], "1"}, who{sv[j], p})
				}
			}
		}
	}
	for i := range sd {
		for j := i; j < len(sd); j++ {
			if i != j && !c.Thorough() && !(strings.HasPrefix(sd[i].name, "client") && strings.HasPrefix(sd[j].name, "client")) {
				continue
			}
			for _, p := range []string{"1", "2"} {
				run("SDK", opaque, sd[i].name+" || "+sd[j].name+", party "+p, c.Q(2, 2), who{sd[i], "1"}, who{sd[j], p})
			}
		}
	}
	stores := c31stores()
	for _, name := range slices.Sorted(maps.Keys(stores)) {
		st := stores[name]
		for i := range st {
			for j := i; j < len(st); j++ {
				for _, p := range []string{"1", "2"} {
					run("storages", opaque, name+": "+st[i].name+" || "+st[j].name+", party "+p, c.Q(2, 3), who{st[i], "1"}, who{st[j], p})
				}
			}
		}
	}
	for i := range sv {
		run("three requests", opaque, "three times "+sv[i].name, 1, who{sv[i], "1"}, who{sv[i], "1"}, who{sv[i], "2"})
	}
}
