package checks

import (
	"fmt"
	"strings"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C05", Run: c05,
		Rule: "full product of scope strings x prompt values x entry point (direct, pushed) followed end to end by the code redemption and, when a refresh token came out, a refresh; plus every other grant with offline_access requested"})
}

func c05(c *x.Ctx) {
	words := []string{"openid", "offline_access", "profile", "OFFLINE_ACCESS", "Offline_Access", "OPENID", "offline_access2", "xoffline_access"}
	var scopes []string
	// all words sequences up to length 3 (thorough: 4), joined by single spaces
	n := c.Q(4, 5)
	var rec func(p []string)
	rec = func(p []string) {
		if len(p) > 0 {
			scopes = append(scopes, strings.Join(p, " "))
		}
		if len(p) == n {
			return
		}
		for _, w := range words {
			if len(p) >= 3 && (w == "xoffline_access" || w == "OPENID") {
				continue
			}
			rec(append(append([]string(nil), p...), w))
		}
	}
	rec(nil)
	for _, s := range []string{"openid  offline_access", " openid offline_access ", "openid\toffline_access", "openid\noffline_access", "openid\r\noffline_access", "openid offline_access offline_access", "openid\u00a0offline_access", "openid\u2003offline_access",
		"offline_access offline_access openid offline_access", "openid offline_access offline_access offline_access offline_access", "openid,offline_access", "openid+offline_access", "offline_access OFFLINE_ACCESS openid", "openid\voffline_access", "openid\u0085offline_access"} {
		scopes = append(scopes, s)
	}
	c.Bound("scope words", fmt.Sprint(n))
	prompts := []*string{nil, sp(""), sp("consent"), sp("none"), sp("login"), sp("select_account"), sp("CONSENT"), sp("login consent"), sp(" consent"), sp("consentx")}
	for _, via := range []string{"direct", "pushed"} {
		for _, s := range scopes {
			for _, p := range prompts {
				via, s, p := via, s, p
				if c.Skip() {
					c.SkipN()
					continue
				}
				c.Case(fmt.Sprintf("via=%s scope=%q prompt=%s", via, s, deref(p)), func() string {
					a := newAS()
					q := authReq("c1")
					q.Scope, q.Prompt = s, p
					in := q
					if via == "pushed" {
						r0, err := a.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: issA, Client: cli("c1"), Request: q})
						c.Step()
						if err != nil {
							return "valid push refused: " + err.Error()
						}
						in = &flowv1.AuthorizationRequest{RequestUri: sp(r0.RequestUri), Prompt: sp("consent"), Scope: "openid offline_access"}
					}
					ar, err := a.authorize(issA, "alice", "c1", in)
					c.Step()
					if err != nil {
						return "valid authorization refused: " + err.Error()
					}
					res, err := a.tok.Token(bg, exchangeReq(issA, "c1", ar.Code, redir1, verifierOK))
					c.Step()
					oid, off, cons := hasScope(s, "openid"), hasScope(s, "offline_access"), p != nil && *p == "consent"
					c.Outcome(fmt.Sprintf("openid=%v offline=%v consent=%v -> granted=%v refresh=%v", oid, off, cons, granted(res), res.GetRefreshToken() != nil))
					c.State(fmt.Sprint(via, fieldsSet(s), deref(p)))
					if !oid {
						if granted(res) {
							return "tokens issued to a code flow without openid scope"
						}
						return ""
					}
					if !granted(res) {
						return fmt.Sprintf("refused: %v", err)
					}
					if (res.RefreshToken != nil) != (off && cons) {
						return fmt.Sprintf("refresh token issued=%v, must be %v", res.RefreshToken != nil, off && cons)
					}
					if got := hasScope(res.AccessToken.Metadata.Scope, "offline_access"); got != (off && cons) {
						return fmt.Sprintf("offline_access in the access token scope=%v (%q), must be %v", got, res.AccessToken.Metadata.Scope, off && cons)
					}
					// every other scope survives, nothing is added
					if e := grantedScope(s, p); strings.Join(strings.Fields(res.AccessToken.Metadata.Scope), " ") != strings.Join(strings.Fields(e), " ") {
						return fmt.Sprintf("scope is %q, must be %q", res.AccessToken.Metadata.Scope, e)
					}
					if res.RefreshToken != nil {
						if res.RefreshToken.Metadata.Scope != res.AccessToken.Metadata.Scope {
							return "refresh token has another scope than the access token"
						}
						r2, err := a.tok.Token(bg, refreshReq(issA, "c1", res.RefreshToken.Value))
						c.Step()
						if err != nil || !granted(r2) {
							return fmt.Sprintf("the refresh token does not work: %v", err)
						}
					}
					return ""
				})
			}
		}
	}
	// no other grant hands out refresh tokens for offline_access, but the device flow,
	// where the user approves on its own device, does exactly then
	for _, s := range []string{"offline_access", "openid offline_access", "profile offline_access", "profile", "OFFLINE_ACCESS", "xoffline_access", "offline_access2", "", "openid\toffline_access"} {
		s := s
		c.Case(fmt.Sprintf("client_credentials scope=%q", s), func() string {
			a := newAS()
			res, err := a.tok.Token(bg, ccReq(issA, "c1", sp(s), nil))
			c.Step()
			if err != nil || res.RefreshToken != nil {
				return fmt.Sprintf("err=%v refresh=%v", err, res.RefreshToken)
			}
			// exchange of that token
			r2, err := a.tok.Token(bg, txReq(issA, "c2", res.AccessToken.Value, sp(s), nil))
			if err != nil || r2.RefreshToken != nil {
				return fmt.Sprintf("token exchange: err=%v refresh=%v", err, r2.RefreshToken)
			}
			return ""
		})
		for _, nilScope := range []bool{false, true} {
			nilScope := nilScope
			c.Case(fmt.Sprintf("device scope=%q nil=%v", s, nilScope), func() string {
				w := newHW(c, &x.H{}, "rt.*", "complete.device", "complete.approve", "complete.poll", "meta.scope")
				var ps *string
				if !nilScope {
					ps = sp(s)
				}
				d := w.device(issA, "c1", ps, nil)
				if w.done() {
					return w.bad
				}
				w.approve(d, issA, d.uc, "alice")
				if w.done() {
					return w.bad
				}
				w.poll(d, issA, "c1", d.dc, "")
				return w.bad
			})
		}
	}
	longScopes(c, "rt.*", "meta.scope", "complete.exchange", "complete.poll")
	wildTexts(c, "code", "device", "refresh")
}
