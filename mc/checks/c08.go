package checks

import (
	"fmt"
	"strings"
	"time"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C08", Run: c08,
		Rule: "all operation sequences over refresh (owner, other client, other issuer, access token, with scope / confirmation) / revoke / clock up to and beyond the lifetime of the refresh token; every state a stored token may have; all schedules of concurrent refreshes with bounded preemptions"})
}

// issue gives the world an access and a refresh token of a code flow.
func (w *hw) issue(iss, client, sub, scope, jkt string) bool {
	k := w.authorize(iss, client, sub, scope, sp("consent"))
	if w.done() {
		return false
	}
	return w.exchange(k, iss, client, redir1, verifierOK, jkt)
}

func c08(c *x.Ctx) {
	strangers(c, "refresh token")
	own := []string{"refresh.*", "iso.refresh", "complete.refresh", "client.grant", "rt.*", "meta.subject", "meta.scope", "meta.audience", "meta.client", "meta.cnf", "meta.issuer", "meta.exp", "meta.stored", "meta.type", "meta.unique", "meta.status"}
	depth := c.Q(4, 5)
	c.Bound("history depth", fmt.Sprint(depth))
	const day = 24 * time.Hour
	c.Histories("refresh", func(h *x.H) string {
		w := newHW(c, h, own...)
		if !w.issue(issA, "c1", "alice", "openid offline_access profile", "jkt-1") {
			return w.bad
		}
		if h.Choose(2) == 1 {
			if !w.issue(issB, "c1", "bob", "openid offline_access", "") {
				return w.bad
			}
		}
		return w.play(depth, func(m *menu) {
			n := 0
			for i := range w.toks {
				t := w.toks[i]
				if t.typ != typRT {
					continue
				}
				n++
				m.add(func() { w.refresh(t, t.iss, t.client, t.val, nil, "") })
				if n > 2 {
					continue
				}
				m.add(func() { w.refresh(t, t.iss, "c2", t.val, nil, "") })
				m.add(func() {
					w.refresh(t, t.iss, t.client, t.val, sp("openid offline_access profile admin"), "attacker")
				})
				m.add(func() { w.revoke(t, t.iss, t.client, t.val) })
				if n == 1 {
					m.add(func() { w.refresh(t, issB, t.client, t.val, nil, "") })
					m.add(func() { w.refresh(t, t.iss, "pub", t.val, nil, "") })
				}
			}
			// the newest access token is no refresh token
			for i := len(w.toks) - 1; i >= 0; i-- {
				if t := w.toks[i]; t.typ == typAT {
					m.add(func() { w.refresh(t, t.iss, t.client, t.val, nil, "") })
					break
				}
			}
			m.add(func() { w.advance(7*day - 59*time.Minute) })
			m.add(func() { w.advance(58 * time.Minute) })
			m.add(func() { w.advance(2 * time.Minute) })
		})
	})
	// every lifetime point
	for _, at := range []time.Duration{0, time.Hour, day, 6 * day, 7*day - 61*time.Minute, 7*day - 59*time.Minute, 7*day - time.Minute, 7*day - time.Second, 7*day + time.Second, 7*day + time.Minute, 8 * day, 30 * day, 400 * day} {
		for _, again := range []time.Duration{time.Second, time.Hour, 6 * day, 7*day - 30*time.Minute, 7*day + time.Minute, 15 * day} {
			at, again := at, again
			c.Case(fmt.Sprintf("lifetime +%s, again +%s", at, again), func() string {
				w := newHW(c, &x.H{}, own...)
				if !w.issue(issA, "c1", "alice", "openid offline_access", "jkt") {
					return w.bad
				}
				t := w.toks[1]
				w.advance(at)
				w.refresh(t, issA, "c1", t.val, nil, "")
				if w.done() {
					return w.bad
				}
				w.advance(again)
				for _, t := range append([]*mtok(nil), w.toks...) {
					if t.typ == typRT && !w.done() {
						w.refresh(t, issA, "c1", t.val, nil, "")
					}
				}
				return w.bad
			})
		}
	}
	// every state of a stored token
	for st := int32(-1); st < 8; st++ {
		for ty := int32(-1); ty < 8; ty++ {
			for _, exp := range []int64{-3600, -1, 1, 60, 3599, 3601, 86400} {
				for _, owner := range []string{"c1", "c2", "C1", ""} {
					for _, jkt := range []string{"", "jkt"} {
						st, ty, exp, owner, jkt := st, ty, exp, owner, jkt
						if c.Skip() {
							c.SkipN()
							continue
						}
						c.Case(fmt.Sprintf("stored status=%d type=%d exp=%+d owner=%q cnf=%q", st, ty, exp, owner, jkt), func() string {
							a := newAS()
							now := uint64(rt.Now().Unix())
							t := &tokenv1.Token{TokenType: tokenv1.TokenType(ty), Status: tokenv1.TokenStatus(st), TokenId: "id", Value: "the-token",
								Metadata: &tokenv1.TokenMeta{Issuer: issA, Subject: "alice", ClientId: owner, Scope: "openid x", Audience: "urn:a", ExpiresAt: uint64(int64(now) + exp), IssuedAt: now - 7}}
							if jkt != "" {
								t.Confirmation = &tokenv1.TokenConfirmation{Jkt: jkt}
							}
							if err := a.rawTok.Create(bg, issA, t); err != nil {
								return err.Error()
							}
							req := refreshReq(issA, "c1", "the-token")
							req.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: "attacker"}
							res, err := a.tok.Token(bg, req)
							c.Step()
							ok := tokenv1.TokenStatus(st) == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && tokenv1.TokenType(ty) == typRT && exp > 0 && owner == "c1"
							if m := shape(res, err); m != "" {
								return m
							}
							c.Outcome(fmt.Sprintf("stored granted=%v", granted(res)))
							c.State(fmt.Sprint(st, ty, exp, owner, jkt))
							if granted(res) != ok {
								return fmt.Sprintf("granted=%v, must be %v: %v", granted(res), ok, err)
							}
							if !ok {
								if len(a.spy.created) > 0 {
									return "a refused refresh created a token"
								}
								return ""
							}
							if (res.RefreshToken != nil) != (exp < 3600) {
								return fmt.Sprintf("rotated=%v with %d s left", res.RefreshToken != nil, exp)
							}
							old, err := a.tok.Token(bg, refreshReq(issA, "c1", "the-token"))
							if granted(old) != (exp > 3600) {
								return fmt.Sprintf("after the refresh, the old token works=%v: %v", granted(old), err)
							}
							for _, k := range []*tokenv1.Token{res.AccessToken, res.RefreshToken} {
								if k == nil {
									continue
								}
								want := "(none)"
								if jkt != "" {
									want = jkt
								}
								if k.Metadata.Subject != "alice" || k.Metadata.Scope != "openid x" || k.Metadata.Audience != "urn:a" || k.Metadata.Issuer != issA || k.Metadata.ClientId != "c1" || jktOf(k.Confirmation) != want {
									return fmt.Sprintf("refreshed token is %v", k)
								}
							}
							return ""
						})
					}
				}
			}
		}
	}
	// values which were never issued
	for i, mk := range []func(u string) string{
		func(u string) string { return "" }, func(u string) string { return u + "x" }, func(u string) string { return u[:len(u)-1] }, strings.ToUpper,
		func(u string) string { return " " + u }, func(u string) string { return u + "\x00" }, func(u string) string { return "rt" }, func(u string) string { return u + " " },
	} {
		mk := mk
		c.Case(fmt.Sprintf("unknown value %d", i), func() string {
			w := newHW(c, &x.H{}, own...)
			if !w.issue(issA, "c1", "alice", "openid offline_access", "") {
				return w.bad
			}
			t := w.toks[1]
			if v := mk(t.val); v != t.val {
				w.refresh(t, issA, "c1", v, nil, "")
			}
			return w.bad
		})
		// the identifier and the storage key of a token are no token
		c.Case(fmt.Sprintf("token internals %d", i), func() string {
			a := newAS()
			code := a.mustCode(issA, "alice", "c1", "openid offline_access", "consent")
			res, err := a.tok.Token(bg, exchangeReq(issA, "c1", code, redir1, verifierOK))
			if err != nil {
				return err.Error()
			}
			st, err := a.rawTok.Get(bg, issA, res.RefreshToken.TokenId)
			if err != nil {
				return err.Error()
			}
			for _, v := range []string{res.RefreshToken.TokenId, st.Value, mk(st.Value)} {
				if v == res.RefreshToken.Value {
					continue
				}
				if r, _ := a.tok.Token(bg, refreshReq(issA, "c1", v)); granted(r) {
					return "a refresh was granted for " + v
				}
			}
			return ""
		})
	}
	// concurrent refreshes of a token about to be rotated
	build := func(n int, check func(a *as, old string, res []*flowv1.TokenResponse) string) func() *x.World {
		return func() *x.World {
			a := newAS()
			code := a.mustCode(issA, "alice", "c1", "openid offline_access", "consent")
			tr, err := a.tok.Token(bg, exchangeReq(issA, "c1", code, redir1, verifierOK))
			if err != nil {
				panic(err)
			}
			rt.Advance(7*day - 30*time.Minute)
			res := make([]*flowv1.TokenResponse, n)
			w := &x.World{}
			for i := range res {
				i := i
				w.Threads = append(w.Threads, func() { res[i], _ = a.tok.Token(bg, refreshReq(issA, "c1", tr.RefreshToken.Value)) })
			}
			w.Check = func() string { return check(a, tr.RefreshToken.Value, res) }
			w.Outcome = func() string {
				g := 0
				for _, r := range res {
					if granted(r) {
						g++
					}
				}
				return fmt.Sprintf("granted=%d", g)
			}
			return w
		}
	}
	bound := c.Q(2, 3)
	c.Explore("concurrent refresh", bound, build(2, func(a *as, old string, res []*flowv1.TokenResponse) string {
		n := 0
		for _, r := range res {
			if !granted(r) {
				continue
			}
			n++
			if r.RefreshToken == nil {
				return "no refresh token came with the rotation"
			}
			if r.AccessToken.Metadata.Subject != "alice" || r.RefreshToken.Metadata.Subject != "alice" || r.RefreshToken.Metadata.ClientId != "c1" {
				return "wrong token"
			}
		}
		if n == 0 {
			return "no refresh succeeded"
		}
		if r, _ := a.tok.Token(bg, refreshReq(issA, "c1", old)); granted(r) {
			return "the rotated refresh token still works after both requests ended"
		}
		return ""
	}))
	c.Explore("concurrent rotation happens once", bound, build(2, func(a *as, old string, res []*flowv1.TokenResponse) string {
		n := 0
		for _, r := range res {
			if granted(r) && r.RefreshToken != nil {
				n++
			}
		}
		if n > 1 {
			return fmt.Sprintf("one refresh token was rotated into %d refresh tokens by concurrent requests", n)
		}
		return ""
	}))
	lookalikes(c, []string{"refresh"}, own...)
	repeats(c, []string{"token"}, own...)
	crowd(c, "refresh tokens")
	eras(c, []string{"token"}, own...)
	wildTexts(c, "refresh")
}
