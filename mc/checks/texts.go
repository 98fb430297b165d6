package checks

import (
	"fmt"
	"slices"
	"strings"
	"time"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"verif.local/mc/x"
)

// texts are values with everything a text can have which some code likes to normalise,
// escape, split, compare or cut.
var texts = []string{"plain", "Upper-CASE", "UPPER", " lead", "trail ", "  both  ", "double  space", "tab\there", "new\nline", "cr\r\nlf", "\tt", "n\n",
	"ünïcödé", "e\u0301", "\u00e9", "K\u212a", "long-\u017f", "\u0130\u0131", "\u00dfss", "a%20b", "%41", "%zz", "%", "a+b", "a&b=c", `quo"te`, `back\slash`, "<tag>&amp;", "nul\x00byte", "\ufeffbom",
	"nbsp\u00a0x", "zero\u200bwidth", "line\u2028sep", "emoji\U0001F600", "comma,separated", "semi;colon", "pipe|d", "a/../b", "a//b", "a/./b", "slash/", "/", "http://X.example:80/Path/?q=1#f", "HTTP://x.example", "'", "`", "${x}", "%s%d%!v", "{{.}}",
	"-", "0", "00", "1e3", "null", "true", "{}", "[]", `{"a":1}`, `""`, "undefined", "urn:UPPER:x", "a:b:c", ":", "a@b.example", "xn--bcher-kva", "..", ".", "*", "?", "#", "=", "==", "a=", strings.Repeat("z", 254) + "A", strings.Repeat("é", 1000) + "E"}

// words are the values of the protocols, which some code likes to treat specially.
var words = []string{"none", "login", "consent", "select_account", "page", "popup", "touch", "wap", "query", "fragment", "form_post", "jwt", "query.jwt", "form_post.jwt", "code", "token", "id_token", "code id_token", "S256", "plain", "openid", "offline_access", "profile", "email", "openid offline_access",
	"admin", "root", "system", "anonymous", "guest", "*", "all", "true", "false", "yes", "ES256", "RS256", "HS256", "sig", "enc", "Bearer", "DPoP", "access_token", "refresh_token", "authorization_code", "client_credentials", "private_key_jwt", "urn:ietf:params:oauth:token-type:access_token", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer",
	"localhost", "http://localhost", "http://127.0.0.1:8080/cb", "https://localhost/", "urn:ietf:wg:oauth:2.0:oob", "com.example.app:/cb", "urn:solid:x", "test", "debug", "default", "unknown", "invalid_request", "access_denied", "en", "fr-CA", "0", "1", "-1", "3600"}

func init() {
	for _, w := range words {
		if !slices.Contains(texts, w) {
			texts = append(texts, w)
		}
	}
}

// wildTexts: whatever text a subject, audience, scope, client, key or state is, it
// arrives in the tokens as it was given. kinds: code par device cc tx refresh.
func wildTexts(c *x.Ctx, kinds ...string) {
	c.Bound("texts with special characters", fmt.Sprint(len(texts)))
	type in struct{ sub, aud, scope, jkt, client, state, nonce string }
	def := in{"alice", "urn:aud", "openid offline_access read", "jkt", "c1", state32, nonce8}
	fields := []struct {
		name string
		set  func(i *in, v string)
	}{
		{"subject", func(i *in, v string) { i.sub = v }},
		{"audience", func(i *in, v string) { i.aud = v }},
		{"scope", func(i *in, v string) { i.scope = "openid offline_access " + v }},
		{"first scope", func(i *in, v string) { i.scope = v + " openid offline_access" }},
		{"key", func(i *in, v string) { i.jkt = v }},
		{"client", func(i *in, v string) { i.client = v }},
		{"state", func(i *in, v string) { i.state = v + state32 }},
		{"nonce", func(i *in, v string) { i.nonce = nonce8 + v }},
	}
	tok := func(what string, t *tokenv1.Token, i in, scope string, exact bool) string {
		if t == nil || t.Metadata == nil {
			return what + " is missing"
		}
		m := t.Metadata
		sc := m.Scope == scope
		if !exact {
			sc = slices.Equal(strings.Fields(m.Scope), strings.Fields(scope))
		}
		if m.Subject != i.sub || m.Audience != i.aud || m.ClientId != i.client || m.Issuer != issA || !sc || jktOf(t.Confirmation) != i.jkt {
			return fmt.Sprintf("the %s of subject %q audience %q client %q scope %q key %q is %v", what, i.sub, i.aud, i.client, scope, i.jkt, t)
		}
		return ""
	}
	stored := func(a *as, what string, t *tokenv1.Token, i in, scope string, exact bool) string {
		if m := tok(what, t, i, scope, exact); m != "" {
			return m
		}
		st, err := a.rawTok.GetByValue(bg, issA, t.Value)
		if err != nil {
			return what + " is not stored: " + err.Error()
		}
		if m := tok("stored "+what, st, i, scope, exact); m != "" {
			return m
		}
		r, err := a.tok.Introspect(bg, &tokenv1.IntrospectRequest{Issuer: issA, Client: cli(i.client), Token: t.Value})
		if err != nil {
			return "introspection refused: " + err.Error()
		}
		return tok("introspected "+what, r.Token, i, scope, exact)
	}
	cnf := func(i in) *tokenv1.TokenConfirmation { return &tokenv1.TokenConfirmation{Jkt: i.jkt} }
	for _, kind := range kinds {
		for _, f := range fields {
			if (f.name == "state" || f.name == "nonce") && kind != "code" && kind != "par" {
				continue
			}
			for n, v := range texts {
				kind, f, v := kind, f, v
				c.Case(fmt.Sprintf("text %d %q as %s of %s", n, v, f.name, kind), func() string {
					i := def
					f.set(&i, v)
					a := newAS()
					a.clients.m[i.client] = newClient(i.client, tConf, gtCode, gtCC, gtDevice, gtRefresh, gtExchange)
					ok := func(r *flowv1.TokenResponse, err error) string {
						c.Step()
						if err != nil {
							return "refused: " + err.Error()
						}
						return shape(r, err)
					}
					c.State(kind + f.name + v)
					switch kind {
					case "code", "par", "refresh":
						r := authReq(i.client)
						r.Scope, r.Audience, r.State, r.Nonce, r.Prompt = i.scope, i.aud, i.state, i.nonce, sp("consent")
						if kind == "par" {
							pr, err := a.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: issA, Client: cli(i.client), Request: r})
							if err != nil {
								return "push refused: " + err.Error()
							}
							r = &flowv1.AuthorizationRequest{ClientId: i.client, RequestUri: sp(pr.RequestUri)}
						}
						ar, err := a.authorize(issA, i.sub, i.client, r)
						if err != nil {
							return "authorization refused: " + err.Error()
						}
						if ar.State != i.state || ar.ClientId != i.client || ar.RedirectUri != redir1 {
							return fmt.Sprintf("answer of state %q client %q is %v", i.state, i.client, ar)
						}
						q := exchangeReq(issA, i.client, ar.Code, redir1, verifierOK)
						q.TokenConfirmation = cnf(i)
						res, err := a.tok.Token(bg, q)
						if m := ok(res, err); m != "" {
							return m
						}
						if m := stored(a, "access token", res.AccessToken, i, i.scope, false); m != "" {
							return m
						}
						if m := stored(a, "refresh token", res.RefreshToken, i, i.scope, false); m != "" {
							return m
						}
						if kind != "refresh" {
							return ""
						}
						before := res.AccessToken.Metadata.Scope
						q = refreshReq(issA, i.client, res.RefreshToken.Value)
						q.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: "other"}
						res, err = a.tok.Token(bg, q)
						if m := ok(res, err); m != "" {
							return m
						}
						return stored(a, "refreshed token", res.AccessToken, i, before, true)
					case "device":
						d, err := a.dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: i.client, Scope: sp(i.scope), Audience: sp(i.aud)})
						if err != nil {
							return "device request refused: " + err.Error()
						}
						if _, err = a.dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: issA, UserCode: d.UserCode, Subject: i.sub}); err != nil {
							return "approval refused: " + err.Error()
						}
						q := pollReq(issA, i.client, d.DeviceCode)
						q.TokenConfirmation = cnf(i)
						res, err := a.tok.Token(bg, q)
						if m := ok(res, err); m != "" {
							return m
						}
						if m := stored(a, "access token", res.AccessToken, i, i.scope, true); m != "" {
							return m
						}
						return stored(a, "refresh token", res.RefreshToken, i, i.scope, true)
					case "cc":
						i.sub = ""
						q := ccReq(issA, i.client, sp(i.scope), sp(i.aud))
						q.TokenConfirmation = cnf(i)
						res, err := a.tok.Token(bg, q)
						if m := ok(res, err); m != "" {
							return m
						}
						return stored(a, "access token", res.AccessToken, i, i.scope, true)
					case "tx":
						t := &tokenv1.Token{TokenType: typAT, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, TokenId: "id", Value: "subject-token", Confirmation: cnf(i), Issuer: issA,
							Metadata: &tokenv1.TokenMeta{Issuer: issA, Subject: i.sub, ClientId: "c2", Scope: i.scope, Audience: i.aud, ExpiresAt: unix(time.Hour), IssuedAt: unix(0)}}
						if err := a.rawTok.Create(bg, issA, t); err != nil {
							return err.Error()
						}
						i.aud = resURN
						for _, s := range []*string{nil, sp(i.scope), sp("openid")} {
							res, err := a.tok.Token(bg, txReq(issA, i.client, "subject-token", s, sp(resURN)))
							if m := ok(res, err); m != "" {
								return m
							}
							want := i.scope
							if s != nil {
								want = *s
							}
							if m := stored(a, "exchanged token", res.AccessToken, i, want, true); m != "" {
								return m
							}
						}
						if f.name == "scope" {
							// a word which merely looks like one of the subject token's
							for _, s := range append(near(v), v+v) {
								if subsetFields(s, i.scope) {
									continue
								}
								if res, err := a.tok.Token(bg, txReq(issA, i.client, "subject-token", sp(s), nil)); err == nil || granted(res) {
									return fmt.Sprintf("scope %q was granted from a subject token with %q", s, i.scope)
								}
							}
						}
						return ""
					}
					return "unknown kind " + kind
				})
			}
		}
	}
}

// subsetFields reports whether every word of a is one of b.
func subsetFields(a, b string) bool {
	fb := strings.Fields(b)
	for _, w := range strings.Fields(a) {
		if !slices.Contains(fb, w) {
			return false
		}
	}
	return true
}

// foreignAudiences: only the name of a registered resource is an audience of an exchange.
func foreignAudiences(c *x.Ctx) {
	reg := []string{resURN, "urn:example:cooperation-context"}
	var l []string
	seen := map[string]bool{resURN: true, reg[1]: true}
	add := func(vs ...string) {
		for _, v := range vs {
			if !seen[v] {
				seen[v] = true
				l = append(l, v)
			}
		}
	}
	add(texts...)
	for _, r := range reg {
		add(near(r)...)
		for p := 0; p < len(r); p++ {
			add(variant(r, p), r[:p], r[p:], r[:p]+r[p+1:], r[:p]+r[p:p+1]+r[p:], r[:p]+strings.ToUpper(r[p:p+1])+r[p+1:])
			if p < len(r)-1 {
				add(r[:p] + r[p+1:p+2] + r[p:p+1] + r[p+2:])
			}
		}
		for _, s := range []string{":", "/", ".", "-", "#", "?", "@", " ", ",", ";", "|", "\n", "\t", "\x00", "*", "%00", "~"} {
			add(r+s, r+s+"admin", r+s+"*", s+r, "x"+s+r, r+s+r, r+s+reg[1])
		}
	}
	add("https://backend.example.com/api", "https://backend.example.com", "https://backend.example.com/api/", "backend-api", "urn:example", "urn:example:", "urn:example:*", "Backend API", "Example context")
	c.Bound("audiences which are not registered", fmt.Sprint(len(l)))
	for n, v := range l {
		n, v := n, v
		c.Case(fmt.Sprintf("foreign audience %d %q", n, v), func() string {
			a := newAS()
			cc, err := a.tok.Token(bg, ccReq(issA, "c1", sp("a"), sp("urn:x")))
			if err != nil {
				return err.Error()
			}
			c.Step()
			c.State(v)
			res, err := a.tok.Token(bg, txReq(issA, "c2", cc.AccessToken.Value, nil, sp(v)))
			if err == nil || granted(res) {
				return fmt.Sprintf("audience %q is not registered and the exchange was granted for %q", v, res.GetAccessToken().GetMetadata().GetAudience())
			}
			if m := shape(res, err); m != "" {
				return m
			}
			if res, err = a.tok.Token(bg, txReq(issA, "c2", cc.AccessToken.Value, nil, sp(resURN))); err != nil || res.AccessToken.Metadata.Audience != resURN {
				return fmt.Sprintf("the registered audience gave %v %v", res, err)
			}
			return ""
		})
	}
}
