package checks

import (
	"fmt"
	"time"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C11", Run: c11,
		Rule: "all operation sequences which issue tokens through every grant, with and without proof-of-possession confirmation, at several instants; every issued token is compared field by field with the reference model and with its stored copy; concurrent issuances under all schedules with bounded preemptions"})
}

func c11(c *x.Ctx) {
	own := []string{"meta.*", "rt.*", "shape", "code.unique", "intro.meta"}
	depth := c.Q(4, 5)
	c.Bound("history depth", fmt.Sprint(depth))
	c.Histories("issue", func(h *x.H) string {
		w := newHW(c, h, own...)
		return w.play(depth, func(m *menu) {
			for _, jkt := range []string{"", "jkt-1", "jkt-2"} {
				jkt := jkt
				m.add(func() { w.issue(issA, "c1", "alice", "openid offline_access profile", jkt) })
				m.add(func() { w.ccred(issB, "c2", sp("m2m"), sp("urn:m"), jkt) })
			}
			m.add(func() { w.issue(issB, "pub", "bob", "profile openid", "") })
			for _, jkt := range []string{"", "jkt-3"} {
				jkt := jkt
				m.add(func() {
					d := w.device(issA, "pub", sp("offline_access files"), sp("urn:dev"))
					if w.done() {
						return
					}
					w.approve(d, issA, d.uc, "carol")
					if !w.done() {
						w.poll(d, issA, "pub", d.dc, jkt)
					}
				})
			}
			for i := range w.toks {
				t := w.toks[i]
				if i > 4 {
					break
				}
				if t.typ == typRT {
					m.add(func() { w.refresh(t, t.iss, t.client, t.val, nil, "jkt-x") })
				} else {
					m.add(func() { w.txchange(t, t.iss, "c2", t.val, nil, sp(resURN)) })
				}
				m.add(func() { w.introspect(t, t.iss, "c2", t.val) })
			}
			m.add(func() { w.advance(61 * time.Second) })
			m.add(func() { w.advance(7*24*time.Hour - 30*time.Minute) })
		})
	})
	// issuance at different instants (month, year, DST and leap boundaries)
	for _, at := range []string{"2031-03-30T00:59:59Z", "2032-02-28T23:30:00Z", "2032-02-29T12:00:00Z", "2031-12-31T23:59:59Z", "2038-01-19T03:14:07Z", "2038-01-19T03:14:08Z", "2031-10-26T00:59:59Z", "2100-02-28T23:59:59Z", "2106-02-07T06:28:16Z"} {
		for _, frac := range []time.Duration{0, 1, 999999999} {
			at, frac := at, frac
			c.Case(fmt.Sprintf("at %s +%dns", at, frac), func() string {
				t, err := time.Parse(time.RFC3339, at)
				if err != nil {
					return err.Error()
				}
				rt.SetNow(t.Add(frac))
				w := newHW(c, &x.H{}, own...)
				w.now = t.Sub(rt.Base)
				if !w.issue(issA, "c1", "alice", "openid offline_access", "jkt") || w.done() {
					return w.bad
				}
				w.ccred(issA, "c1", nil, nil, "")
				w.txchange(w.toks[0], issA, "c2", w.toks[0].val, nil, nil)
				w.refresh(w.toks[1], issA, "c1", w.toks[1].val, nil, "")
				return w.bad
			})
		}
	}
	// concurrent issuances do not mix up
	c.Explore("issue|issue", c.Q(2, 3), func() *x.World {
		a := newAS()
		k1 := a.mustCode(issA, "alice", "c1", "openid offline_access", "consent")
		k2 := a.mustCode(issB, "bob", "c2", "openid offline_access", "consent")
		var r1, r2 *tokenv1.Token
		var q1, q2 *tokenv1.Token
		w := &x.World{}
		w.Threads = append(w.Threads, func() {
			q := exchangeReq(issA, "c1", k1, redir1, verifierOK)
			q.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: "j1"}
			r, _ := a.tok.Token(bg, q)
			r1, q1 = r.GetAccessToken(), r.GetRefreshToken()
		}, func() {
			q := exchangeReq(issB, "c2", k2, redir1, verifierOK)
			q.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: "j2"}
			r, _ := a.tok.Token(bg, q)
			r2, q2 = r.GetAccessToken(), r.GetRefreshToken()
		})
		w.Check = func() string {
			for _, p := range []struct {
				t               *tokenv1.Token
				iss, cl, sub, j string
			}{{r1, issA, "c1", "alice", "j1"}, {q1, issA, "c1", "alice", "j1"}, {r2, issB, "c2", "bob", "j2"}, {q2, issB, "c2", "bob", "j2"}} {
				if p.t == nil {
					return "no token"
				}
				st, err := a.rawTok.GetByValue(bg, p.iss, p.t.Value)
				if err != nil {
					return "an issued token is not stored: " + err.Error()
				}
				for _, k := range []*tokenv1.Token{p.t, st} {
					if k.Metadata.GetClientId() != p.cl || k.Metadata.GetSubject() != p.sub || k.Metadata.GetIssuer() != p.iss || jktOf(k.Confirmation) != p.j {
						return fmt.Sprintf("token of %s/%s is %v", p.cl, p.sub, k)
					}
				}
			}
			return ""
		}
		return w
	})
	// one long history of every grant: no identifier and no value comes twice
	c.Case("identifiers of a long history", func() string {
		a := newAS()
		seen := map[string]bool{}
		add := func(ts ...*tokenv1.Token) string {
			for _, t := range ts {
				if t == nil {
					continue
				}
				if seen["id"+t.TokenId] || seen["v"+t.Value] || t.TokenId == "" {
					return fmt.Sprintf("after %d tokens, the identifier %q or the value %q was used before", len(seen)/2, t.TokenId, t.Value)
				}
				seen["id"+t.TokenId], seen["v"+t.Value] = true, true
			}
			return ""
		}
		for i := 0; i < c.Q(20000, 60000); i++ {
			c.Step()
			code := a.mustCode(issA, "alice", "c1", "openid offline_access", "consent")
			tr, err := a.tok.Token(bg, exchangeReq(issA, "c1", code, redir1, verifierOK))
			if err != nil {
				return err.Error()
			}
			cc, err := a.tok.Token(bg, ccReq(issA, "c1", nil, nil))
			if err != nil {
				return err.Error()
			}
			tx, err := a.tok.Token(bg, txReq(issA, "c1", tr.AccessToken.Value, nil, nil))
			if err != nil {
				return err.Error()
			}
			if m := add(tr.AccessToken, tr.RefreshToken, cc.AccessToken, tx.AccessToken); m != "" {
				return m
			}
		}
		return ""
	})
	beside(c, "code", "cc", "device", "refresh")
	storedRecords(c, "introspect")
	longScopes(c, append(own, "complete.*")...)
	wildTexts(c, "code", "device", "cc", "tx", "refresh")
}
