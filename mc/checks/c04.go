package checks

import (
	"fmt"
	"slices"
	"strings"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C04", Run: c04,
		Rule: "all authorization requests with at most 3 (thorough: 4) dimensions deviating from a valid request, at the authorization endpoint, at the pushed endpoint, and stored under a request_uri, compared to an independently written admission predicate; plus registry changes between push and use"})
}

type dim struct {
	name string
	vals []string
}

// deviations calls f with every combination of at most k deviating dimensions; the first
// value of a dimension is its baseline.
func deviations(dims []dim, k int, f func(pick []int, key string)) {
	pick := make([]int, len(dims))
	var rec func(from, left int)
	rec = func(from, left int) {
		var b []string
		for i, p := range pick {
			if p != 0 {
				b = append(b, dims[i].name+"="+dims[i].vals[p])
			}
		}
		f(append([]int(nil), pick...), strings.Join(b, " "))
		if left == 0 {
			return
		}
		for i := from; i < len(dims); i++ {
			for v := 1; v < len(dims[i].vals); v++ {
				pick[i] = v
				rec(i+1, left-1)
			}
			pick[i] = 0
		}
	}
	rec(0, k)
}

func c04clients() *clientMap {
	m := defaultClients()
	noRT := newClient("nort", tConf, gtCode)
	noRT.ResponseTypes = nil
	noRM := newClient("norm", tConf, gtCode)
	noRM.ResponseModes = nil
	noRU := newClient("noru", tConf, gtCode)
	noRU.RedirectUris = nil
	cc := newClient("cconly", tConf, gtCC, gtRefresh, gtDevice, gtExchange)
	tok := newClient("tok", tConf, gtCode)
	tok.ResponseTypes = []string{"token"}
	all := newClient("all", tConf, gtCode)
	all.ResponseTypes = []string{"code", "token"}
	all.ResponseModes = []string{"query", "fragment", "form_post", "query.jwt", "fragment.jwt", "form_post.jwt"}
	odd := newClient("odd", tPub, gtCode)
	odd.RedirectUris = []string{"not a uri", redir1 + "/", "com.example.app:/cb", redir2, "http://127.0.0.1:8765/cb", "http://localhost/cb"}
	one := newClient("one", tConf, gtCode)
	one.RedirectUris = []string{redir1}
	// registered for more than the server supports
	lax := newClient("lax", tConf, gtCode, "implicit", "")
	lax.ResponseTypes = []string{"code", "token", "", "id_token", "code token", "code id_token", "none", "jwt"}
	lax.ResponseModes = append([]string{"web_message", "", "query.jwt ", "jwt"}, all.ResponseModes...)
	lax.RedirectUris = append([]string{"", "not a uri"}, redir1)
	for x, cl := range map[string]clientT{"lax": lax, "nort": noRT, "norm": noRM, "noru": noRU, "cconly": cc, "tok": tok, "all": all, "odd": odd, "one": one} {
		m[x] = cl
	}
	return &clientMap{m}
}

// c04ok is the admission policy, written from the documentation.
func c04ok(cm *clientMap, r *flowv1.AuthorizationRequest) bool {
	if len(r.State) < 32 || len(r.Nonce) < 8 || r.Scope == "" || r.Audience == "" || r.CodeChallengeMethod != "S256" || len(r.CodeChallenge) != 43 {
		return false
	}
	if r.ResponseType != "code" && r.ResponseType != "token" {
		return false
	}
	cl := cm.m[r.ClientId]
	if cl == nil || !slices.Contains(cl.GrantTypes, gtCode) || !slices.Contains(cl.ResponseTypes, r.ResponseType) || !slices.Contains(cl.RedirectUris, r.RedirectUri) {
		return false
	}
	if !strings.Contains(r.RedirectUri, ":/") {
		return false
	}
	if r.ResponseMode != nil {
		m := *r.ResponseMode
		if m == "jwt" {
			m = map[string]string{"code": "query.jwt", "token": "fragment.jwt"}[r.ResponseType]
		}
		if !slices.Contains([]string{"query", "fragment", "form_post", "query.jwt", "fragment.jwt", "form_post.jwt"}, m) || !slices.Contains(cl.ResponseModes, m) {
			return false
		}
	}
	return true
}

func c04(c *x.Ctx) {
	dims := []dim{
		{"client", []string{"c1", "c2", "pub", "none", "ghost", "", "nort", "norm", "noru", "cconly", "tok", "all", "odd", "one", "lax"}},
		{"state", []string{"32", "31", "0", "33", "16x2bytes", "1000"}},
		{"nonce", []string{"8", "7", "0", "9", "4x2bytes", "8 blanks"}},
		{"scope", []string{"openid profile", "", "  ", "profile", "openid offline_access", "openid"}},
		{"challenge", []string{"43", "42", "44", "0", "128", "43x2bytes"}},
		{"method", []string{"S256", "plain", "", "s256", "S256 ", "S512"}},
		{"audience", []string{"urn:api", ""}},
		{"rtype", []string{"code", "token", "", "id_token", "code token", "code id_token", "none", "jwt"}},
		{"rmode", []string{"-", "query", "fragment", "form_post", "jwt", "query.jwt", "fragment.jwt", "form_post.jwt", "web_message", "", "query.jwt "}},
		{"redirect", []string{redir1, redir2, redir1 + "/", redir1 + "?x=1", redir1 + "#f", redir1 + "/../cb", strings.Replace(redir1, "/cb", "/CB", 1), strings.Replace(redir1, "client.", "CLIENT.", 1),
			"http://client.example.com/cb", "https://client.example.com", "https://client.example.com:443/cb", "https://user@client.example.com/cb", "https://client.example.com.evil.net/cb", "https://evil.example.net/cb",
			redir1 + "2/..", " " + redir1, redir1 + " ", "", "not a uri", "/cb", "com.example.app:/cb", redir1[:len(redir1)-1], redir1 + "%00", redir1 + "\x00",
			"com.example.app:/CB", "http://127.0.0.1:8765/cb", "http://127.0.0.1:8765/CB", "http://127.0.0.1:9999/cb", "http://127.0.0.1/cb", "http://localhost/CB", "http://localhost:8765/cb"}},
		{"also", []string{"-", "prompt", "prompt none", "prompt login", "prompt consent", "display", "max_age 0", "max_age", "ui_locales", "id_token_hint", "acr_values", "request", "dpop_proof", "resource", "iss", "iss B", "login_hint", "login_hint_token"}},
	}
	str := func(v string) string {
		switch v {
		case "16x2bytes":
			return strings.Repeat("é", 16)
		case "4x2bytes":
			return strings.Repeat("é", 4)
		case "43x2bytes":
			return strings.Repeat("é", 43)
		case "8 blanks":
			return strings.Repeat(" ", 8)
		}
		n := 0
		fmt.Sscanf(v, "%d", &n)
		return strings.Repeat("s", n)
	}
	mk := func(p []int) *flowv1.AuthorizationRequest {
		g := func(i int) string { return dims[i].vals[p[i]] }
		r := &flowv1.AuthorizationRequest{ClientId: g(0), State: str(g(1)), Nonce: str(g(2)), Scope: g(3), CodeChallengeMethod: g(5), Audience: g(6), ResponseType: g(7), RedirectUri: g(9)}
		if r.CodeChallenge = str(g(4)); !strings.HasPrefix(r.CodeChallenge, "é") {
			r.CodeChallenge = (challengeOK + challengeOK + challengeOK)[:len(r.CodeChallenge)]
		}
		if g(8) != "-" {
			r.ResponseMode = sp(g(8))
		}
		switch also := g(10); also {
		case "prompt":
			r.Prompt = sp("")
		case "prompt none", "prompt login", "prompt consent":
			r.Prompt = sp(also[7:])
		case "display":
			r.Display = sp("page")
		case "max_age 0", "max_age":
			n := uint64(len(also) - 7)
			if n == 0 {
				n = 3600
			} else {
				n = 0
			}
			r.MaxAge = &n
		case "ui_locales":
			r.UiLocales = sp("fr en")
		case "id_token_hint":
			r.IdTokenHint = sp("eyJ.e30.x")
		case "acr_values":
			r.AcrValues = sp("urn:acr:1")
		case "request":
			r.Request = sp("eyJ.e30.x")
		case "dpop_proof":
			r.DpopProof = sp("eyJ.e30.x")
		case "resource":
			r.Resource = []string{resURN}
		case "iss":
			r.Iss = sp(issA)
		case "iss B":
			r.Iss = sp(issB)
		case "login_hint":
			r.LoginHint = sp("alice")
		case "login_hint_token":
			r.LoginHintToken = sp("eyJ.e30.x")
		}
		return r
	}
	k := c.Q(3, 4)
	c.Bound("deviating dimensions", fmt.Sprint(k))
	for _, via := range []string{"authorize", "push", "stored"} {
		via := via
		deviations(dims, k, func(pick []int, key string) {
			if c.Skip() {
				c.SkipN()
				return
			}
			c.Case("via="+via+" "+key, func() string {
				cm := c04clients()
				a := newAS()
				a.clients.m = cm.m
				reg := 0
				a.hook = func(op string, after bool) error {
					if after && (op == "codes.Register" || op == "pars.Register") {
						reg++
					}
					return nil
				}
				r, o := mk(pick), mk(pick)
				ok := c04ok(cm, o)
				c.Step()
				var got bool
				var err error
				var perr any
				switch via {
				case "push":
					res, e := a.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: issA, Client: cli(o.ClientId), Request: r})
					got, err = e == nil && res.GetRequestUri() != "", e
					if res.GetError() != nil {
						perr = res.Error
					}
					if !got && res.GetRequestUri() != "" {
						return "request_uri returned with an error"
					}
				default:
					in := r
					if via == "stored" {
						// a request which got into the storage is still validated when used
						u := "urn:solid:" + strings.Repeat("0123456789abcdef", 2)
						if _, e := a.pars.Register(bg, issA, u, r); e != nil {
							return e.Error()
						}
						in = &flowv1.AuthorizationRequest{RequestUri: sp(u)}
					}
					reg = 0
					res, e := a.auth.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: issA, Subject: "alice", Client: cli(o.ClientId), Request: in})
					got, err = e == nil && res.GetCode() != "", e
					if res.GetError() != nil {
						perr = res.Error
					}
					if !got && res.GetCode() != "" {
						return "code returned with an error"
					}
					if got {
						mode := ""
						if o.ResponseMode != nil {
							mode = *o.ResponseMode
							if mode == "jwt" {
								mode = map[string]string{"code": "query.jwt", "token": "fragment.jwt"}[o.ResponseType]
							}
						}
						if res.State != o.State || res.RedirectUri != o.RedirectUri || res.ClientId != o.ClientId || res.Issuer != issA || res.ResponseMode != mode {
							return fmt.Sprintf("answer %v does not match the request %v", res, o)
						}
						s, e := a.codes.Get(bg, issA, res.Code)
						if e != nil || s.Subject != "alice" || s.Issuer != issA || s.Request.GetClientId() != o.ClientId || s.Request.GetRedirectUri() != o.RedirectUri ||
							s.Request.GetCodeChallenge() != o.CodeChallenge || s.Request.GetNonce() != o.Nonce || s.Request.GetAudience() != o.Audience {
							return fmt.Sprintf("stored session %v does not match the request %v", s, o)
						}
						for _, sc := range strings.Fields(s.Request.GetScope()) {
							if !slices.Contains(strings.Fields(o.Scope), sc) {
								return fmt.Sprintf("the stored session has scope %q, requested %q", s.Request.GetScope(), o.Scope)
							}
						}
					}
				}
				c.Outcome(fmt.Sprintf("%s accepted=%v", via, got))
				c.State(via + key)
				if got && !ok {
					return fmt.Sprintf("a request which violates the policy was accepted: %v", o)
				}
				if !got && ok {
					return fmt.Sprintf("a request which satisfies the policy was refused: %v", err)
				}
				if got != (err == nil) || got == (perr != nil) {
					return fmt.Sprintf("error=%v protocol error=%v accepted=%v", err, perr, got)
				}
				if !got && reg > 0 {
					return "a refused request left a session in the storage"
				}
				return ""
			})
		})
	}
	// envelope
	for _, iss := range []string{issA, ""} {
		for _, sub := range []string{"alice", ""} {
			for _, nilReq := range []bool{false, true} {
				iss, sub, nilReq := iss, sub, nilReq
				c.Case(fmt.Sprintf("envelope issuer=%q subject=%q nil=%v", iss, sub, nilReq), func() string {
					a := newAS()
					r := authReq("c1")
					if nilReq {
						r = nil
					}
					res, err := a.auth.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: iss, Subject: sub, Client: cli("c1"), Request: r})
					ok := iss != "" && sub != "" && !nilReq
					c.Step()
					if (err == nil && res.GetCode() != "") != ok {
						return fmt.Sprintf("accepted=%v, must be %v", err == nil, ok)
					}
					return ""
				})
			}
		}
	}
	// what the registry says when the pushed request is used counts
	changes := []struct {
		name string
		f    func(cm *clientMap)
	}{
		{"client removed", func(cm *clientMap) { delete(cm.m, "c1") }},
		{"grant removed", func(cm *clientMap) { cm.m["c1"] = newClient("c1", tConf, gtCC) }},
		{"redirect removed", func(cm *clientMap) {
			x := newClient("c1", tConf, gtCode)
			x.RedirectUris = []string{redir2}
			cm.m["c1"] = x
		}},
		{"response type removed", func(cm *clientMap) {
			x := newClient("c1", tConf, gtCode)
			x.ResponseTypes = []string{"token"}
			cm.m["c1"] = x
		}},
		{"response mode removed", func(cm *clientMap) {
			x := newClient("c1", tConf, gtCode)
			x.ResponseModes = []string{"fragment"}
			cm.m["c1"] = x
		}},
	}
	for _, ch := range changes {
		ch := ch
		c.Case("between push and use: "+ch.name, func() string {
			a := newAS()
			q := authReq("c1")
			q.ResponseMode = sp("query")
			r0, err := a.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: issA, Client: cli("c1"), Request: q})
			if err != nil {
				return err.Error()
			}
			ch.f(a.clients)
			c.Step()
			res, err := a.authorize(issA, "alice", "c1", &flowv1.AuthorizationRequest{RequestUri: sp(r0.RequestUri)})
			if err == nil || res.GetCode() != "" {
				return "the pushed request was honoured although the client may no longer use it"
			}
			return ""
		})
	}
	manyRegistered(c)
}
