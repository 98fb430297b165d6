package checks

import (
	"fmt"
	"slices"
	"strings"
	"time"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C06", Run: c06,
		Rule: "full product of client type x registered grants x grant_type / payload pairs x scope x audience x issuer x confirmation; all histories over registry changes and requests"})
}

func c06(c *x.Ctx) {
	types := []clientv1.ClientType{0, tPub, tConf, tCred, 99, -1}
	grants := [][]string{nil, {gtCC}, {gtCode}, {gtCode, gtCC}, {gtCode, gtRefresh, gtDevice, gtExchange}, {"client_credential"}, {"client_credentials "}, {"client_credentials2"}, {""}, {"client", "credentials"}}
	scopes := []*string{nil, sp(""), sp("a"), sp("openid offline_access"), sp("a  b"), sp(strings.Repeat("s ", 300))}
	auds := []*string{nil, sp(""), sp("urn:api"), sp("https://x.example/?a=b c")}
	issuers := []string{issA, "", "not a uri", "https://", "/relative", issC}
	for _, ty := range types {
		for _, gr := range grants {
			for _, s := range scopes {
				for _, au := range auds {
					for _, iss := range issuers {
						for _, cnf := range []string{"", "jkt"} {
							ty, gr, s, au, iss, cnf := ty, gr, s, au, iss, cnf
							if c.Skip() {
								c.SkipN()
								continue
							}
							c.Case(fmt.Sprintf("type=%d grants=%q scope=%s aud=%s iss=%q cnf=%q", ty, gr, deref(s), deref(au), iss, cnf), func() string {
								a := newAS()
								a.clients.m["m2m"] = newClient("m2m", ty, gr...)
								req := ccReq(iss, "m2m", s, au)
								if cnf != "" {
									req.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: cnf}
								}
								res, err := a.tok.Token(bg, req)
								c.Step()
								uriOK := iss == issA || iss == issC || iss == "https://" || iss == "/relative"
								dontcare := iss == "https://" || iss == "/relative"
								ok := (ty == tConf || ty == tCred) && slices.Contains(gr, gtCC) && uriOK
								g := granted(res)
								c.Outcome(fmt.Sprintf("granted=%v", g))
								c.State(fmt.Sprint(ty, gr, deref(s), deref(au), iss, cnf))
								if m := shape(res, err); m != "" {
									return m
								}
								if g && !ok {
									return "client credentials were granted to a client which must not have them"
								}
								if !g && ok && !dontcare {
									return fmt.Sprintf("refused: %v", err)
								}
								if !g {
									if len(a.spy.created) != 0 {
										return "a refused request created a token"
									}
									return ""
								}
								m := res.AccessToken.Metadata
								switch {
								case res.RefreshToken != nil:
									return "client credentials returned a refresh token"
								case m.Subject != "":
									return "machine token has a subject " + m.Subject
								case m.ClientId != "m2m" || m.Issuer != iss:
									return fmt.Sprintf("token for client %q issuer %q", m.ClientId, m.Issuer)
								case s != nil && m.Scope != *s || s == nil && m.Scope != "":
									return fmt.Sprintf("scope is %q", m.Scope)
								case au != nil && m.Audience != *au || au == nil && m.Audience != "":
									return fmt.Sprintf("audience is %q", m.Audience)
								case len(a.spy.created) != 1:
									return fmt.Sprintf("%d tokens were created", len(a.spy.created))
								case jktOf(res.AccessToken.Confirmation) != map[string]string{"": "(none)", "jkt": "jkt"}[cnf]:
									return "confirmation lost"
								}
								return ""
							})
						}
					}
				}
			}
		}
	}
	// every text as the whole scope and as the whole audience: a machine token stands for nobody but its client
	for ti, t := range texts {
		for _, ty := range []clientv1.ClientType{tConf, tCred} {
			t, ty := t, ty
			c.Case(fmt.Sprintf("whole text#%d type=%d", ti, ty), func() string {
				for _, in := range [][2]*string{{&t, nil}, {nil, &t}, {&t, &t}, {&t, sp("urn:api")}} {
					a := newAS()
					cl := newClient("m2m", ty, gtCC)
					cl.ClientName, cl.ClientUri, cl.Contacts = t+"n", "https://m2m.example/", []string{"m@m2m.example"}
					a.clients.m["m2m"] = cl
					res, err := a.tok.Token(bg, ccReq(issA, "m2m", in[0], in[1]))
					c.Step()
					if m := shape(res, err); m != "" {
						return m
					}
					if !granted(res) {
						c.Outcome("whole text refused")
						continue
					}
					c.Outcome("whole text granted")
					m := res.AccessToken.Metadata
					if m.Subject != "" || m.ClientId != "m2m" || m.Issuer != issA || m.Scope != orEmpty(in[0]) || m.Audience != orEmpty(in[1]) {
						return fmt.Sprintf("scope %s audience %s: subject %q client %q issuer %q scope %q audience %q", deref(in[0]), deref(in[1]), m.Subject, m.ClientId, m.Issuer, m.Scope, m.Audience)
					}
				}
				return ""
			})
		}
	}
	// the grant type decides: a payload of another grant, an unknown grant type
	payloads := map[string]func(r *flowv1.TokenRequest){
		"cc": func(r *flowv1.TokenRequest) {
			r.Grant = &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}
		},
		"cc-nil":   func(r *flowv1.TokenRequest) { r.Grant = &flowv1.TokenRequest_ClientCredentials{} },
		"code":     func(r *flowv1.TokenRequest) { r.Grant = exchangeReq(issA, "c1", "x", redir1, verifierOK).Grant },
		"refresh":  func(r *flowv1.TokenRequest) { r.Grant = refreshReq(issA, "c1", "x").Grant },
		"device":   func(r *flowv1.TokenRequest) { r.Grant = pollReq(issA, "c1", "x").Grant },
		"exchange": func(r *flowv1.TokenRequest) { r.Grant = txReq(issA, "c1", "x", nil, nil).Grant },
		"none":     func(r *flowv1.TokenRequest) { r.Grant = nil },
	}
	for _, gt := range []string{gtCC, gtCode, gtRefresh, gtDevice, gtExchange, "", "password", "implicit", "CLIENT_CREDENTIALS", "client_credentials "} {
		for _, pn := range []string{"cc", "cc-nil", "code", "refresh", "device", "exchange", "none"} {
			for _, cl := range []string{"c1", "pub", "none", "ghost", "<nil>"} {
				gt, pn, cl := gt, pn, cl
				c.Case(fmt.Sprintf("grant_type=%q payload=%s client=%s", gt, pn, cl), func() string {
					a := newAS()
					r := &flowv1.TokenRequest{Issuer: issA, Client: cli(cl), GrantType: gt}
					if cl == "<nil>" {
						r.Client = nil
					}
					payloads[pn](r)
					res, err := a.tok.Token(bg, r)
					c.Step()
					ok := gt == gtCC && pn == "cc" && cl == "c1"
					if m := shape(res, err); m != "" {
						return m
					}
					c.Outcome(fmt.Sprintf("dispatch granted=%v", granted(res)))
					if granted(res) != ok {
						return fmt.Sprintf("granted=%v, must be %v (%v)", granted(res), ok, err)
					}
					return ""
				})
			}
		}
	}
	// registry changes take effect at the next request
	depth := c.Q(5, 6)
	c.Bound("history depth", fmt.Sprint(depth))
	c.Histories("registry", func(h *x.H) string {
		w := newHW(c, h, "cc.*", "complete.cc", "rt.unexpected", "meta.client", "meta.subject", "meta.scope", "meta.audience")
		return w.play(depth, func(m *menu) {
			m.add(func() { w.ccred(issA, "c1", sp("a"), sp("urn:x"), "") })
			m.add(func() { w.ccred(issB, "c2", nil, nil, "j") })
			m.add(func() { w.ccred(issA, "pub", nil, nil, "") })
			set := func(id, label string, ty clientv1.ClientType, gr ...string) {
				m.add(func() {
					h.Label(id + " becomes " + label)
					w.a.clients.m[id] = newClient(id, ty, gr...)
					w.step()
				})
			}
			set("c1", "public", tPub, gtCC)
			set("c1", "without grant", tConf, gtCode)
			set("c1", "confidential", tConf, gtCC)
			set("pub", "credentialed", tCred, gtCC)
			m.add(func() { h.Label("c2 removed"); delete(w.a.clients.m, "c2"); w.step() })
			m.add(func() { w.advance(time.Hour) })
		})
	})
	registered(c)
	wildTexts(c, "cc")
}

func orEmpty(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}
