package checks

import (
	"fmt"
	"time"

	"verif.local/mc/x"
)

// repeats runs every history in which clients make the very same requests again and again,
// for the same and for another user, at the same and at another issuer, and use what they
// got in between: an answer may not depend on having been given before.
// kinds: code, par, device, token.
func repeats(c *x.Ctx, kinds []string, own ...string) {
	depth := c.Q(6, 7)
	c.Bound("repeated requests, history depth", fmt.Sprint(depth))
	for _, kind := range kinds {
		kind := kind
		c.Histories("repeated "+kind, func(h *x.H) string {
			w := newHW(c, h, own...)
			clock := []time.Duration{5 * time.Second}
			switch kind {
			case "code":
				ask := func(iss, sub string) func() {
					return func() { w.authorize(iss, "c1", sub, "openid offline_access", sp("consent")) }
				}
				ask(issA, "alice")()
				return w.play(depth, func(m *menu) {
					if len(w.codes) < 3 {
						m.add(ask(issA, "alice"))
						m.add(ask(issA, "bob"))
						m.add(ask(issB, "alice"))
					}
					for i := range w.codes {
						k := w.codes[i]
						m.add(func() { w.exchange(k, k.iss, k.client, redir1, verifierOK, "") })
						if i == 0 {
							m.add(func() { w.exchange(k, k.iss, k.client, redir1, verifierBad, "") })
						}
					}
					for _, d := range clock {
						m.add(func() { w.advance(d) })
					}
				})
			case "par":
				push := func(iss, client string) func() {
					return func() { w.push(iss, client, authReq(client)) }
				}
				push(issA, "c1")()
				return w.play(depth, func(m *menu) {
					if len(w.pars) < 3 {
						m.add(push(issA, "c1"))
						m.add(push(issB, "c1"))
					}
					for i := range w.pars {
						p := w.pars[i]
						m.add(func() { w.useURI(p, p.iss, p.client, "alice", nil, nil) })
						if i < 2 {
							m.add(func() { w.useURI(p, p.iss, "", "bob", nil, nil) })
						}
					}
					for i := range w.codes {
						if k := w.codes[i]; i < 2 {
							m.add(func() { w.exchange(k, k.iss, k.client, redir1, verifierOK, "") })
						}
					}
				})
			case "device":
				ask := func(iss, client string) func() {
					return func() { w.device(iss, client, sp("openid offline_access"), sp("urn:api")) }
				}
				ask(issA, "c1")()
				return w.play(depth, func(m *menu) {
					if len(w.devs) < 3 {
						m.add(ask(issA, "c1"))
						m.add(ask(issB, "c1"))
					}
					for i := range w.devs {
						d := w.devs[i]
						m.add(func() { w.approve(d, d.iss, d.uc, "alice") })
						if i == 0 {
							m.add(func() { w.approve(d, d.iss, d.uc, "bob") })
						}
						m.add(func() { w.poll(d, d.iss, d.client, d.dc, "") })
					}
					for _, d := range clock {
						m.add(func() { w.advance(d) })
					}
				})
			case "token":
				ask := func(iss, sub string) func() {
					return func() { w.issue(iss, "c1", sub, "openid offline_access", "") }
				}
				ask(issA, "alice")()
				return w.play(depth-2, func(m *menu) {
					if len(w.toks) < 4 {
						m.add(ask(issA, "alice"))
						m.add(ask(issA, "bob"))
						m.add(ask(issB, "alice"))
						m.add(func() { w.ccred(issA, "c1", sp("m2m"), sp("urn:m"), "") })
					}
					for i := range w.toks {
						t := w.toks[i]
						if i > 3 {
							break
						}
						if t.typ == typRT {
							m.add(func() { w.refresh(t, t.iss, t.client, t.val, nil, "") })
						} else {
							m.add(func() { w.txchange(t, t.iss, "c2", t.val, nil, sp(resURN)) })
						}
						m.add(func() { w.revoke(t, t.iss, t.client, t.val) })
						m.add(func() { w.introspect(t, t.iss, "c2", t.val) })
					}
					for _, d := range clock {
						m.add(func() { w.advance(d) })
					}
				})
			}
			panic(kind)
		})
	}
}
