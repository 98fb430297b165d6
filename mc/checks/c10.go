package checks

import (
	"fmt"
	"strings"
	"time"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C10", Run: c10,
		Rule: "all operation sequences over revoke (owner, other client, other issuer, unknown value) / introspect / refresh / exchange; token value variants; all schedules of concurrent revocation, use and issuance with bounded preemptions"})
}

func c10(c *x.Ctx) {
	strangers(c, "token")
	own := []string{"revoke.*", "intro.*", "iso.revoke", "iso.introspect", "complete.revoke", "complete.introspect", "refresh.revoked", "tx.revoked", "complete.refresh", "complete.tx"}
	depth := c.Q(4, 5)
	c.Bound("history depth", fmt.Sprint(depth))
	other := map[string]string{"c1": "c2", "c2": "c1", "pub": "c1"}
	c.Histories("revoke", func(h *x.H) string {
		w := newHW(c, h, own...)
		if !w.issue(issA, "c1", "alice", "openid offline_access", "jkt-1") {
			return w.bad
		}
		if h.Choose(2) == 1 {
			if !w.ccred(issB, "c2", sp("x"), nil, "") {
				return w.bad
			}
		}
		return w.play(depth, func(m *menu) {
			for i := range w.toks {
				t := w.toks[i]
				if i > 3 {
					break
				}
				m.add(func() { w.revoke(t, t.iss, t.client, t.val) })
				m.add(func() { w.revoke(t, t.iss, other[t.client], t.val) })
				m.add(func() { w.introspect(t, t.iss, other[t.client], t.val) })
				if i < 2 {
					m.add(func() { w.revoke(t, issB, t.client, t.val) })
					m.add(func() { w.introspect(t, issB, t.client, t.val) })
				}
				if t.typ == typRT {
					m.add(func() { w.refresh(t, t.iss, t.client, t.val, nil, "") })
				} else {
					m.add(func() { w.txchange(t, t.iss, "c2", t.val, nil, nil) })
				}
			}
			m.add(func() { w.advance(7*24*time.Hour - 30*time.Minute) })
		})
	})
	// every token of the server keeps its own state: n tokens, revoke one, look at all
	for n := 1; n <= c.Q(5, 7); n++ {
		for mask := 0; mask < 1<<n; mask++ {
			n, mask := n, mask
			c.Case(fmt.Sprintf("tokens=%d revoked=%b", n, mask), func() string {
				w := newHW(c, &x.H{}, own...)
				for i := 0; i < n; i++ {
					if !w.ccred([]string{issA, issB}[i%2], []string{"c1", "c2"}[i/2%2], sp(fmt.Sprintf("s%d", i)), nil, "") {
						return w.bad
					}
				}
				for i := 0; i < n; i++ {
					if mask>>i&1 == 1 {
						t := w.toks[i]
						w.revoke(t, t.iss, t.client, t.val)
					}
				}
				for i := 0; i < n; i++ {
					w.introspect(w.toks[i], w.toks[i].iss, "c2", w.toks[i].val)
				}
				return w.bad
			})
		}
	}
	// token value variants and request envelopes
	vars := []func(u string) string{
		func(u string) string { return "" }, func(u string) string { return u + "x" }, func(u string) string { return u[:len(u)-1] }, strings.ToUpper,
		func(u string) string { return " " + u }, func(u string) string { return u + "\x00" }, func(u string) string { return u + " " }, func(u string) string { return "unknown" },
	}
	for i, mk := range vars {
		mk := mk
		c.Case(fmt.Sprintf("unknown value %d", i), func() string {
			a := newAS()
			res, err := a.tok.Token(bg, ccReq(issA, "c1", nil, nil))
			if err != nil {
				return err.Error()
			}
			v := mk(res.AccessToken.Value)
			vs := []string{v, res.AccessToken.TokenId}
			st, _ := a.rawTok.Get(bg, issA, res.AccessToken.TokenId)
			vs = append(vs, st.GetValue())
			for _, v := range vs {
				ir, err := a.tok.Introspect(bg, &tokenv1.IntrospectRequest{Issuer: issA, Client: cli("c1"), Token: v})
				c.Step()
				if v == "" {
					if err == nil {
						return "empty token introspected"
					}
				} else if ir.GetToken().GetStatus() == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE || ir.GetToken().GetMetadata() != nil {
					return fmt.Sprintf("%q introspects as %v", v, ir.Token)
				}
				a.tok.Revoke(bg, &tokenv1.RevokeRequest{Issuer: issA, Client: cli("c1"), Token: v})
			}
			ir, _ := a.tok.Introspect(bg, &tokenv1.IntrospectRequest{Issuer: issA, Client: cli("c1"), Token: res.AccessToken.Value})
			if ir.GetToken().GetStatus() != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
				return "revoking other values revoked the token"
			}
			return ""
		})
	}
	for _, cl := range []string{"c1", "c2", "pub", "none", "ghost", "", "C1", "<nil>"} {
		for _, iss := range []string{issA, issB, "", "not a uri"} {
			for _, hint := range []*string{nil, sp("access_token"), sp("refresh_token"), sp("")} {
				for _, which := range []int{0, 1} {
					cl, iss, hint, which := cl, iss, hint, which
					c.Case(fmt.Sprintf("revoke envelope client=%q iss=%q hint=%s token=%d", cl, iss, deref(hint), which), func() string {
						w := newHW(c, &x.H{}, own...)
						if !w.issue(issA, "c1", "alice", "openid offline_access", "") {
							return w.bad
						}
						req := &tokenv1.RevokeRequest{Issuer: iss, Client: cli(cl), Token: w.toks[which].val, TokenTypeHint: hint}
						q := &tokenv1.IntrospectRequest{Issuer: iss, Client: cli(cl), Token: w.toks[which].val, TokenTypeHint: hint}
						if cl == "<nil>" {
							req.Client, q.Client = nil, nil
						}
						known := w.a.clients.m[cl] != nil
						ir, err := w.a.tok.Introspect(bg, q)
						if a := ir.GetToken().GetStatus() == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE; a != (known && iss == issA) {
							return fmt.Sprintf("introspection answers active=%v: %v", a, err)
						}
						_, err = w.a.tok.Revoke(bg, req)
						c.Step()
						ok := cl == "c1" && iss == issA
						for i, t := range w.toks {
							st, e := w.a.rawTok.GetByValue(bg, issA, t.val)
							if e != nil {
								return e.Error()
							}
							if rev := st.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE; rev != (ok && i == which) {
								return fmt.Sprintf("after the request (err=%v), token %d revoked=%v", err, i, rev)
							}
						}
						if ok != (err == nil) {
							return fmt.Sprintf("revocation answers %v", err)
						}
						return ""
					})
				}
			}
		}
	}
	// concurrency: once the revocation was acknowledged the token is dead, whatever ran with it
	worlds := []struct {
		name string
		ops  []string
	}{{"revoke|revoke", []string{"revoke", "revoke"}}, {"revoke|introspect", []string{"revoke", "introspect"}}, {"revoke|issue", []string{"revoke", "issue"}}, {"revoke|refresh", []string{"revoke", "refresh"}}, {"revoke|foreign", []string{"revoke", "foreign"}}, {"revoke|other token", []string{"revoke", "revoke2"}}}
	for _, wd := range worlds {
		wd := wd
		c.Explore(wd.name, c.Q(2, 3), func() *x.World {
			a := newAS()
			code := a.mustCode(issA, "alice", "c1", "openid offline_access", "consent")
			tr, err := a.tok.Token(bg, exchangeReq(issA, "c1", code, redir1, verifierOK))
			if err != nil {
				panic(err)
			}
			val, val2 := tr.RefreshToken.Value, tr.AccessToken.Value
			acked, acked2 := false, false
			w := &x.World{}
			for _, op := range wd.ops {
				switch op {
				case "revoke":
					w.Threads = append(w.Threads, func() {
						if _, err := a.tok.Revoke(bg, &tokenv1.RevokeRequest{Issuer: issA, Client: cli("c1"), Token: val}); err == nil {
							acked = true
						}
					})
				case "revoke2":
					w.Threads = append(w.Threads, func() {
						if _, err := a.tok.Revoke(bg, &tokenv1.RevokeRequest{Issuer: issA, Client: cli("c1"), Token: val2}); err == nil {
							acked2 = true
						}
					})
				case "foreign":
					w.Threads = append(w.Threads, func() { a.tok.Revoke(bg, &tokenv1.RevokeRequest{Issuer: issA, Client: cli("c2"), Token: val2}) })
				case "introspect":
					w.Threads = append(w.Threads, func() { a.tok.Introspect(bg, &tokenv1.IntrospectRequest{Issuer: issA, Client: cli("c2"), Token: val}) })
				case "issue":
					w.Threads = append(w.Threads, func() { a.tok.Token(bg, ccReq(issA, "c2", nil, nil)) })
				case "refresh":
					w.Threads = append(w.Threads, func() { a.tok.Token(bg, refreshReq(issA, "c1", val)) })
				}
			}
			w.Check = func() string {
				if !acked {
					return "the owner's revocation failed"
				}
				ir, _ := a.tok.Introspect(bg, &tokenv1.IntrospectRequest{Issuer: issA, Client: cli("c1"), Token: val})
				if ir.GetToken().GetStatus() != tokenv1.TokenStatus_TOKEN_STATUS_REVOKED {
					return "the revoked token is " + ir.GetToken().GetStatus().String()
				}
				if byID, err := a.rawTok.Get(bg, issA, tr.RefreshToken.TokenId); err == nil && byID.Status != tokenv1.TokenStatus_TOKEN_STATUS_REVOKED {
					return "the revoked token is active under its id"
				}
				if r, _ := a.tok.Token(bg, refreshReq(issA, "c1", val)); granted(r) {
					return "a revoked refresh token was accepted"
				}
				ir, _ = a.tok.Introspect(bg, &tokenv1.IntrospectRequest{Issuer: issA, Client: cli("c1"), Token: val2})
				if (ir.GetToken().GetStatus() == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE) == acked2 {
					return "the access token is " + ir.GetToken().GetStatus().String()
				}
				return ""
			}
			return w
		})
	}
	storedRecords(c, "introspect", "revoke")
	lookalikes(c, []string{"revoke", "introspect"}, own...)
	repeats(c, []string{"token"}, own...)
	crowd(c, "tokens")
	eras(c, []string{"token"}, own...)
}
