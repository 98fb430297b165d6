package checks

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"verif.local/mc/x"
)

// beside enumerates what may stand beside the parameters which decide a token request: other
// parameters of the request and of its grant, with values an attacker would choose, one and two
// at a time. They never change whom, what for and how long the tokens are.
func beside(c *x.Ctx, kinds ...string) {
	for _, kind := range kinds {
		// what the server holds, and the plain request
		prep := func() (*as, *flowv1.TokenRequest, map[string]string) {
			a := newAS()
			vals := map[string]string{}
			issue := func(cl, scope, sub, jkt string) *flowv1.TokenResponse {
				q := exchangeReq(issA, cl, a.mustCode(issA, sub, cl, scope, "consent"), redir1, verifierOK)
				if jkt != "" {
					q.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: jkt}
				}
				r, err := a.tok.Token(bg, q)
				if err != nil {
					panic(err)
				}
				return r
			}
			bob := issue("c2", "openid offline_access read write admin", "bob", "jkt-bob")
			vals["bob's access token"], vals["bob's refresh token"] = bob.AccessToken.Value, bob.RefreshToken.Value
			mine := issue("c1", "openid offline_access read", "alice", "jkt-alice")
			vals["own access token"], vals["own refresh token"] = mine.AccessToken.Value, mine.RefreshToken.Value
			vals["bob's code"] = a.mustCode(issA, "bob", "c2", "openid offline_access admin", "consent")
			var q *flowv1.TokenRequest
			switch kind {
			case "code":
				q = exchangeReq(issA, "c1", a.mustCode(issA, "alice", "c1", "openid read", ""), redir1, verifierOK)
				q.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: "jkt-1"}
			case "cc":
				q = ccReq(issA, "c1", sp("read"), sp("urn:x"))
				q.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: "jkt-1"}
			case "device":
				d, err := a.dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: "c1", Scope: sp("openid read"), Audience: sp("urn:d")})
				if err != nil {
					panic(err)
				}
				if _, err = a.dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: issA, UserCode: d.UserCode, Subject: "alice"}); err != nil {
					panic(err)
				}
				q = pollReq(issA, "c1", d.DeviceCode)
				q.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: "jkt-1"}
			case "refresh":
				q = refreshReq(issA, "c1", vals["own refresh token"])
			case "tx":
				q = txReq(issA, "c2", vals["own access token"], nil, nil)
			case "tx narrowed":
				q = txReq(issA, "c2", vals["own access token"], sp("read"), sp(resURN))
			}
			return a, q, vals
		}
		show := func(r *flowv1.TokenResponse) string {
			one := func(t *tokenv1.Token) string {
				if t == nil {
					return "none"
				}
				m := proto.Clone(t.Metadata).(*tokenv1.TokenMeta)
				return fmt.Sprintf("%s %s sub=%s client=%s scope=%q aud=%q iss=%s iat=%d exp=%d cnf=%s", t.TokenType, t.Status, m.Subject, m.ClientId, m.Scope, m.Audience, m.Issuer, m.IssuedAt, m.ExpiresAt, jktOf(t.Confirmation))
			}
			return "access " + one(r.GetAccessToken()) + " refresh " + one(r.GetRefreshToken())
		}
		type extra struct {
			field, name string
			set         func(q *flowv1.TokenRequest, v map[string]string) bool
		}
		var extras []extra
		add := func(field, name string, set func(q *flowv1.TokenRequest, v map[string]string) bool) {
			extras = append(extras, extra{field, name, set})
		}
		if kind == "code" || kind == "device" || kind == "refresh" {
			for _, s := range []string{"", "openid offline_access read write admin", "admin", "openid", "offline_access", "*"} {
				s := s
				add("scope", s, func(q *flowv1.TokenRequest, _ map[string]string) bool { q.Scope = sp(s); return true })
			}
			for _, s := range []string{"", resURN, "urn:admin", "c2", "*"} {
				s := s
				add("audience", s, func(q *flowv1.TokenRequest, _ map[string]string) bool { q.Audience = sp(s); return true })
			}
		}
		if kind == "refresh" || strings.HasPrefix(kind, "tx") {
			for _, s := range []string{"", "jkt-attacker", "jkt-bob", "<nil>"} {
				s := s
				add("confirmation", s, func(q *flowv1.TokenRequest, _ map[string]string) bool {
					q.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: s}
					if s == "<nil>" {
						q.TokenConfirmation = nil
					}
					return true
				})
			}
		}
		for _, s := range [][]string{{}, {""}, {resURN}, {"https://backend.example.com/api"}, {"urn:admin", resURN}, {"*"}} {
			s := s
			add("resource", strings.Join(s, ","), func(q *flowv1.TokenRequest, _ map[string]string) bool { q.Resource = s; return true })
		}
		held := []string{"bob's access token", "bob's refresh token", "own access token", "own refresh token", "bob's code"}
		for _, s := range append([]string{"", "c1", "c2", "jkt-1", "jkt-bob", "unknown", atType, "urn:ietf:params:oauth:token-type:refresh_token"}, held...) {
			s := s
			val := func(v map[string]string) *string {
				if w, ok := v[s]; ok {
					return sp(w)
				}
				return sp(s)
			}
			add("dpop_jkt", s, func(q *flowv1.TokenRequest, v map[string]string) bool {
				if g := q.GetAuthorizationCode(); g != nil {
					g.DpopJkt = val(v)
					return true
				}
				return false
			})
			add("device client_id", s, func(q *flowv1.TokenRequest, v map[string]string) bool {
				if g := q.GetDeviceCode(); g != nil {
					g.ClientId = *val(v)
					return true
				}
				return false
			})
			add("requested_token_type", s, func(q *flowv1.TokenRequest, v map[string]string) bool {
				if g := q.GetTokenExchange(); g != nil {
					g.RequestedTokenType = val(v)
					return true
				}
				return false
			})
			add("actor_token_type", s, func(q *flowv1.TokenRequest, v map[string]string) bool {
				if g := q.GetTokenExchange(); g != nil {
					g.ActorTokenType = val(v)
					return true
				}
				return false
			})
			add("actor_token", s, func(q *flowv1.TokenRequest, v map[string]string) bool {
				if g := q.GetTokenExchange(); g != nil {
					g.ActorToken = val(v)
					return true
				}
				return false
			})
		}
		// the client the caller authenticated, as it presents itself: the registered one counts
		for i, f := range []func(cl clientT){
			func(cl clientT) {
				cl.GrantTypes = append([]string(nil), gtCode, gtCC, gtRefresh, gtDevice, gtExchange)
			},
			func(cl clientT) { cl.GrantTypes = nil },
			func(cl clientT) { cl.RedirectUris = []string{"https://evil.example.net/cb"} },
			func(cl clientT) { cl.SubjectType, cl.SectorIdentifier = "pairwise", "evil" },
			func(cl clientT) { cl.DpopBoundAccessTokens = !cl.DpopBoundAccessTokens },
			func(cl clientT) { cl.ClientName = "c2" },
		} {
			f := f
			add("client", fmt.Sprint(i), func(q *flowv1.TokenRequest, _ map[string]string) bool {
				cl := proto.Clone(q.Client).(clientT)
				f(cl)
				q.Client = cl
				return true
			})
		}
		_, q0, v0 := prep()
		var use []extra
		for _, e := range extras {
			if e.set(proto.Clone(q0).(*flowv1.TokenRequest), v0) {
				use = append(use, e)
			}
		}
		c.Bound("parameters beside a request: "+kind, fmt.Sprint(len(use)))
		try := func(key string, es ...extra) {
			kind := kind
			c.Case(fmt.Sprintf("beside %s: %s", kind, key), func() string {
				a, q, _ := prep()
				want, err := a.tok.Token(bg, q)
				if err != nil {
					return "the plain request was refused: " + err.Error()
				}
				b, q, v := prep()
				for _, e := range es {
					e.set(q, v)
				}
				got, err := b.tok.Token(bg, q)
				c.Step()
				c.State(kind + key)
				if m := shape(got, err); m != "" {
					return m
				}
				c.Outcome(fmt.Sprintf("beside granted=%v", granted(got)))
				if err != nil {
					return "" // refusing is never wrong here
				}
				if w, g := show(want), show(got); w != g {
					return fmt.Sprintf("the answer is %s, without these parameters %s", g, w)
				}
				st, err := b.rawTok.GetByValue(bg, issA, got.AccessToken.Value)
				if err != nil || !proto.Equal(st.Metadata, got.AccessToken.Metadata) {
					return fmt.Sprintf("the stored token is %v (%v), the answer %v", st, err, got.AccessToken)
				}
				return ""
			})
		}
		for i, e := range use {
			try(fmt.Sprintf("%s=%q", e.field, e.name), e)
			for _, f := range use[i+1:] {
				if f.field != e.field {
					try(fmt.Sprintf("%s=%q %s=%q", e.field, e.name, f.field, f.name), e, f)
				}
			}
		}
		if strings.HasPrefix(kind, "tx") {
			// an actor with more authority than the subject lends none of it
			for _, actor := range append([]string{""}, held...) {
				for _, scope := range []string{"admin", "read admin", "openid offline_access read write admin", "write"} {
					for _, typ := range []*string{nil, sp(atType), sp("urn:ietf:params:oauth:token-type:jwt")} {
						actor, scope, typ := actor, scope, typ
						c.Case(fmt.Sprintf("beside %s: actor %q type %s asks for %q", kind, actor, deref(typ), scope), func() string {
							a, q, v := prep()
							q.Scope = sp(scope)
							q.GetTokenExchange().ActorToken, q.GetTokenExchange().ActorTokenType = sp(v[actor]), typ
							res, err := a.tok.Token(bg, q)
							c.Step()
							if err == nil || granted(res) {
								return fmt.Sprintf("scope %q granted on behalf of the actor: %v", scope, res)
							}
							return shape(res, err)
						})
					}
				}
			}
		}
	}
}

// storedRecords enumerates the token records a storage may hold: introspection reports exactly
// the record, and a revocation by its owner ends it and changes nothing else of it.
func storedRecords(c *x.Ctx, ops ...string) {
	confs := map[string]*tokenv1.TokenConfirmation{"none": nil, "empty": {}, "jkt": {Jkt: "jkt"}}
	for _, op := range ops {
		for st := int32(0); st < 6; st++ {
			for ty := int32(0); ty < 6; ty++ {
				for _, life := range []struct {
					name          string
					iat, nbf, exp int64
				}{{"hour", 0, 1, 3600}, {"minute", 0, 0, 60}, {"short", -50, -49, 10}, {"second", 0, 0, 1}, {"expired", -7200, -7199, -3600}, {"future", 3600, 3600, 7200}, {"no nbf", 0, -1 << 40, 3600}, {"no times", -1 << 40, -1 << 40, -1 << 40}, {"week", 0, 1, 7 * 86400}, {"exp before nbf", 0, 100, 50}} {
					for _, cnf := range []string{"none", "empty", "jkt"} {
						for _, who := range []string{"alice", ""} {
							for _, more := range []string{"", "actor", "acr", "empty strings"} {
								for _, by := range []string{"c1", "c2"} {
									op, st, ty, life, cnf, who, more, by := op, st, ty, life, cnf, who, more, by
									if by == "c2" && (more != "" || life.name != "hour") {
										continue
									}
									c.Case(fmt.Sprintf("record %s status=%d type=%d life=%s cnf=%s subject=%q %s by=%s", op, st, ty, life.name, cnf, who, more, by), func() string {
										a := newAS()
										at := func(d int64) uint64 {
											if d == -1<<40 {
												return 0
											}
											return uint64(int64(unix(0)) + d)
										}
										rec := &tokenv1.Token{Issuer: issA, TokenType: tokenv1.TokenType(ty), Status: tokenv1.TokenStatus(st), TokenId: "id", Value: "the-token", Confirmation: confs[cnf],
											Metadata: &tokenv1.TokenMeta{Issuer: issA, Subject: who, ClientId: "c1", Scope: "openid x", Audience: "urn:a", IssuedAt: at(life.iat), NotBefore: at(life.nbf), ExpiresAt: at(life.exp)}}
										switch more {
										case "actor":
											rec.Actor = []*tokenv1.Actor{{Subject: "svc"}}
											rec.MayAct = []*tokenv1.Actor{{Subject: "other"}}
											rec.Phantom = sp("ph")
										case "acr":
											u := uint64(12345)
											rec.Metadata.Acr, rec.Metadata.AuthTime = sp("urn:acr"), &u
										case "empty strings":
											rec.Metadata.Scope, rec.Metadata.Audience = "", ""
											rec.Metadata.Acr, rec.Phantom = sp(""), sp("")
										}
										if err := a.rawTok.Create(bg, issA, rec); err != nil {
											return err.Error()
										}
										before, err := a.rawTok.GetByValue(bg, issA, "the-token")
										if err != nil {
											return err.Error()
										}
										want := proto.Clone(before).(*tokenv1.Token)
										if op == "revoke" {
											_, err := a.tok.Revoke(bg, &tokenv1.RevokeRequest{Issuer: issA, Client: cli(by), Token: "the-token"})
											c.Step()
											if (err == nil) != (by == "c1") {
												return fmt.Sprintf("revocation by %s answers %v", by, err)
											}
											if err == nil {
												want.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
											}
										}
										res, err := a.tok.Introspect(bg, &tokenv1.IntrospectRequest{Issuer: issA, Client: cli(by), Token: "the-token"})
										c.Step()
										c.State(fmt.Sprint(op, st, ty, life.name, cnf, who, more, by))
										if err != nil {
											return "introspection refused: " + err.Error()
										}
										c.Outcome(fmt.Sprintf("record %s reports %s", op, res.Token.GetStatus()))
										got := proto.Clone(res.Token).(*tokenv1.Token)
										got.Value, want.Value = "", ""
										if !proto.Equal(got, want) {
											return fmt.Sprintf("introspection reports %v, the record is %v", got, want)
										}
										byID, err := a.rawTok.Get(bg, issA, "id")
										if err != nil {
											return err.Error()
										}
										if byID.Value = ""; !proto.Equal(byID, want) {
											return fmt.Sprintf("the record under its id is %v, must be %v", byID, want)
										}
										return ""
									})
								}
							}
						}
					}
				}
			}
		}
	}
}
