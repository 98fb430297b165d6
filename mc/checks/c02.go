package checks

import (
	"fmt"
	"strings"
	"time"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C02", Run: c02,
		Rule: "full product of presented client x redirect_uri x code_verifier x issuer x stored session variants, plus histories in which two clients' codes and the client registry change between issuance and redemption"})
}

// unreserved is the RFC 7636 verifier alphabet; v(n) is a verifier of n characters.
func ver(n int) string {
	const u = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~"
	var b strings.Builder
	for b.Len() < n {
		b.WriteByte(u[(b.Len()*7+n)%len(u)])
	}
	return b.String()
}

func c02(c *x.Ctx) {
	strangers(c, "code")
	type vv struct{ name, issued, presented string }
	var vs []vv
	for _, n := range []int{43, 44, 64, 127, 128} {
		v := ver(n)
		vs = append(vs, vv{fmt.Sprintf("right-%d", n), v, v})
		vs = append(vs, vv{fmt.Sprintf("last-char-%d", n), v, v[:n-1] + "!"})
		vs = append(vs, vv{fmt.Sprintf("first-char-%d", n), v, "!" + v[1:]})
		if n < 128 {
			vs = append(vs, vv{fmt.Sprintf("extended-%d", n), v, v + "A"})
		}
		if n > 43 {
			vs = append(vs, vv{fmt.Sprintf("truncated-%d", n), v, v[:n-1]})
		}
		vs = append(vs, vv{fmt.Sprintf("case-%d", n), v, strings.ToUpper(v)})
		vs = append(vs, vv{fmt.Sprintf("challenge-as-verifier-%d", n), v, s256(v)})
	}
	vs = append(vs,
		vv{"padded", ver(44), ver(44) + " "}, vv{"leading-space", ver(44), " " + ver(44)}, vv{"newline", ver(44), ver(44) + "\n"},
		vv{"nul", ver(44), ver(44) + "\x00"}, vv{"other", ver(44), ver(45)},
		vv{"too-short-42", ver(42), ver(42)}, vv{"too-long-129", ver(129), ver(129)}, vv{"short-1", "a", "a"}, vv{"empty", ver(44), ""},
		vv{"empty-issued-empty", "", ""}, vv{"base64-padding", ver(44), s256(ver(44)) + "="})
	for i, s := range near(ver(44)) {
		vs = append(vs, vv{fmt.Sprintf("near-%d", i), ver(44), s}, vv{fmt.Sprintf("issued-near-%d", i), s, ver(44)})
	}
	redirs := []struct{ name, v string }{
		{"same", redir1}, {"other-registered", redir2}, {"unregistered", "https://evil.example.net/cb"}, {"slash", redir1 + "/"}, {"query", redir1 + "?x=1"},
		{"fragment", redir1 + "#f"}, {"case-path", strings.Replace(redir1, "/cb", "/CB", 1)}, {"case-host", strings.Replace(redir1, "client", "CLIENT", 1)},
		{"prefix", redir1[:len(redir1)-1]}, {"scheme", strings.Replace(redir1, "https", "http", 1)}, {"empty", ""}, {"space", redir1 + " "}, {"encoded", strings.Replace(redir1, "/cb", "/%63b", 1)},
	}
	clients := []string{"c1", "c2", "pub", "none", "ghost", "C1", "c1 ", ""}
	for _, v := range vs {
		for _, r := range redirs {
			for _, cl := range clients {
				v, r, cl := v, r, cl
				// three wrong dimensions at once say nothing new
				wrong := 0
				if v.issued != v.presented {
					wrong++
				}
				if r.name != "same" {
					wrong++
				}
				if cl != "c1" {
					wrong++
				}
				if wrong > 2 {
					continue
				}
				c.Case(fmt.Sprintf("exchange verifier=%s redirect=%s client=%q", v.name, r.name, cl), func() string {
					a := newAS()
					q := authReq("c1")
					q.CodeChallenge = s256(v.issued)
					ar, err := a.authorize(issA, "alice", "c1", q)
					if err != nil {
						return "valid authorization refused: " + err.Error()
					}
					c.Step()
					res, err := a.tok.Token(bg, exchangeReq(issA, cl, ar.Code, r.v, v.presented))
					c.Step()
					ok := v.issued == v.presented && len(v.presented) >= 43 && len(v.presented) <= 128 && r.name == "same" && cl == "c1"
					c.Outcome(fmt.Sprintf("granted=%v", granted(res)))
					c.State(fmt.Sprint(v.name, r.name, cl, ok))
					if granted(res) && !ok {
						return "tokens were issued to a request which does not match the authorization"
					}
					if !granted(res) && ok {
						return fmt.Sprintf("a matching request was refused: %v", err)
					}
					if granted(res) && (res.AccessToken.Metadata.ClientId != "c1" || res.AccessToken.Metadata.Subject != "alice") {
						return fmt.Sprintf("tokens for %v", res.AccessToken.Metadata)
					}
					return ""
				})
			}
		}
	}
	// a client which registered many spellings of its redirect_uri: what was authorized is what must be presented
	spellings := append([]string{redir1, "com.example.app:/cb", "http://127.0.0.1:8765/cb", "http://127.0.0.1:9999/cb", "https://client.example.com:443/cb"}, near(redir1)...)
	for _, auth := range spellings {
		for _, pres := range spellings {
			auth, pres := auth, pres
			c.Case(fmt.Sprintf("registered spellings: authorized %q, presented %q", auth, pres), func() string {
				a := newAS()
				cl := newClient("c1", tConf, a.clients.m["c1"].GrantTypes...)
				cl.RedirectUris = spellings
				a.clients.m["c1"] = cl
				q := authReq("c1")
				q.RedirectUri = auth
				ar, err := a.authorize(issA, "alice", "c1", q)
				if err != nil {
					// not an absolute URI
					c.Outcome("spelling not accepted")
					return ""
				}
				res, err := a.tok.Token(bg, exchangeReq(issA, "c1", ar.Code, pres, verifierOK))
				c.Step()
				c.Outcome(fmt.Sprintf("spelling same=%v granted=%v", auth == pres, granted(res)))
				if granted(res) != (auth == pres) {
					return fmt.Sprintf("authorized for %q, presented %q: granted=%v (%v)", auth, pres, granted(res), err)
				}
				return ""
			})
		}
	}
	// stored sessions a storage may hold: other challenge methods never match
	for _, method := range []string{"plain", "", "s256", "S256 ", "none", "S512", "PLAIN", "S256"} {
		for _, chal := range []struct{ name, v string }{{"s256", s256(verifierOK)}, {"plain", verifierOK}, {"empty", ""}, {"padded", s256(verifierOK) + "="}, {"prefix", s256(verifierOK)[:42]}, {"lower", strings.ToLower(s256(verifierOK))}} {
			for _, rd := range []string{redir1, "", "https://evil.example.net/cb"} {
				for _, owner := range []string{"c1", "c2", ""} {
					method, chal, rd, owner := method, chal, rd, owner
					c.Case(fmt.Sprintf("session method=%q challenge=%s redirect=%q owner=%q", method, chal.name, rd, owner), func() string {
						a := newAS()
						q := authReq(owner)
						q.CodeChallengeMethod, q.CodeChallenge, q.RedirectUri = method, chal.v, rd
						if _, err := a.codes.Register(bg, issA, "the-code", &sessionv1.AuthorizationCodeSession{Issuer: issA, Subject: "alice", Request: q}); err != nil {
							return err.Error()
						}
						pres := rd
						if pres == "" {
							pres = redir1
						}
						res, err := a.tok.Token(bg, exchangeReq(issA, "c1", "the-code", pres, verifierOK))
						c.Step()
						ok := method == "S256" && chal.name == "s256" && rd == redir1 && owner == "c1"
						c.Outcome(fmt.Sprintf("session granted=%v", granted(res)))
						if granted(res) && !ok {
							return "tokens were issued for a session which does not match"
						}
						if !granted(res) && ok {
							return fmt.Sprintf("refused: %v", err)
						}
						return ""
					})
				}
			}
		}
	}
	// histories: two clients, two codes, a changing registry
	depth := c.Q(5, 6)
	c.Bound("history depth", fmt.Sprint(depth))
	c.Histories("bindings", func(h *x.H) string {
		w := newHW(c, h, "code.client", "code.redirect", "code.verifier", "code.scope", "client.grant", "complete.exchange", "meta.client", "meta.subject")
		k1 := w.authorize(issA, "c1", "alice", "openid", nil)
		k2 := w.authorize(issA, "c2", "bob", "openid", nil)
		if w.done() {
			return w.bad
		}
		k2.verifier = verifierOK
		// The registry no longer allows the redirect_uri or grant of c1.
		redirOK := true
		return w.play(depth, func(m *menu) {
			for _, k := range []*mcode{k1, k2} {
				k := k
				for _, cl := range []string{"c1", "c2"} {
					cl := cl
					m.add(func() {
						if cl == "c1" && !redirOK {
							// the registered list no longer holds redir1
							w.h.Label("exchange(" + cl + ") after the redirect_uri was removed")
							res, _ := w.a.tok.Token(bg, exchangeReq(issA, cl, k.val, redir1, verifierOK))
							k.burned = true
							w.step()
							if granted(res) {
								w.disc("code.redirect", "tokens issued for a redirect_uri the client no longer has")
							}
							return
						}
						w.exchange(k, issA, cl, redir1, verifierOK, "")
					})
				}
				m.add(func() { w.exchange(k, issA, k.client, redir2, verifierOK, "") })
				m.add(func() { w.exchange(k, issA, k.client, redir1, verifierBad, "") })
			}
			if redirOK {
				m.add(func() {
					h.Label("registry: c1 loses redirect_uri")
					cl := newClient("c1", tConf, w.a.clients.m["c1"].GrantTypes...)
					cl.RedirectUris = []string{redir2}
					w.a.clients.m["c1"] = cl
					redirOK = false
				})
			}
			if redirOK {
				m.add(func() {
					h.Label("registry: c1 has no redirect_uri any more")
					cl := newClient("c1", tConf, w.a.clients.m["c1"].GrantTypes...)
					cl.RedirectUris = nil
					w.a.clients.m["c1"] = cl
					redirOK = false
				})
			}
			m.add(func() {
				h.Label("registry: c1 loses grant")
				cl := newClient("c1", tConf, gtCC, gtRefresh)
				cl.RedirectUris = w.a.clients.m["c1"].RedirectUris
				w.a.clients.m["c1"] = cl
			})
		})
	})
	_ = time.Second
	_ = rt.Base
	_ = flowv1.TokenRequest{}
	lookalikes(c, []string{"code"}, "code.*", "complete.exchange")
	repeats(c, []string{"code"}, "code.*", "complete.exchange", "meta.subject", "meta.client", "meta.scope", "meta.audience")
	manyRegistered(c)
}
