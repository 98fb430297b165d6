package checks

import (
	"fmt"
	"time"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C01", Run: c01,
		Rule: "all operation sequences over authorize / redeem (right, wrong verifier, wrong redirect_uri, other client, malformed) / clock, and all schedules of concurrent redemptions with bounded preemptions"})
}

func c01(c *x.Ctx) {
	depth := c.Q(5, 6)
	c.Bound("history depth", fmt.Sprint(depth))
	c.Histories("codes", func(h *x.H) string {
		w := newHW(c, h, "code.used", "code.expired", "code.unique", "complete.exchange")
		w.authorize(issA, "c1", "alice", "openid offline_access profile", sp("consent"))
		return w.play(depth, func(m *menu) {
			if len(w.codes) < 2 {
				m.add(func() { w.authorize(issA, "c1", "bob", "openid", nil) })
			}
			for i := range w.codes {
				k := w.codes[i]
				m.add(func() { w.exchange(k, issA, "c1", redir1, verifierOK, "") })
				m.add(func() { w.exchange(k, issA, "c1", redir1, verifierBad, "") })
				m.add(func() { w.exchange(k, issA, "c1", redir2, verifierOK, "") })
				m.add(func() { w.exchange(k, issA, "c2", redir1, verifierOK, "") })
				m.add(func() { w.exchange(k, issA, "c1", redir1, "short", "") })
			}
			m.add(func() { w.advance(59 * time.Second) })
			m.add(func() { w.advance(2 * time.Second) })
			m.add(func() { w.advance(10 * time.Minute) })
		})
	})
	// lifetime: the code is dead at every instant after the announced lifetime
	for _, d := range []time.Duration{61 * time.Second, 62 * time.Second, 90 * time.Second, 119 * time.Second, 121 * time.Second, 5 * time.Minute, 9 * time.Minute, 11 * time.Minute, time.Hour, 24 * time.Hour} {
		d := d
		c.Histories(fmt.Sprintf("lifetime+%s", d), func(h *x.H) string {
			w := newHW(c, h, "code.used", "code.expired", "complete.exchange")
			k := w.authorize(issA, "c1", "alice", "openid", nil)
			if w.done() {
				return w.bad
			}
			if h.Choose(2) == 1 { // another code registered in between
				w.advance(d / 2)
				w.authorize(issA, "c1", "bob", "openid", nil)
				w.advance(d - d/2)
			} else {
				w.advance(d)
			}
			w.exchange(k, issA, "c1", redir1, verifierOK, "")
			return w.bad
		})
	}
	// concurrent redemptions
	type red struct{ client, redirect, verifier string }
	good := red{"c1", redir1, verifierOK}
	sets := map[string][]red{
		"good|good":         {good, good},
		"good|bad-verifier": {good, {"c1", redir1, verifierBad}},
		"good|other-client": {good, {"c2", redir1, verifierOK}},
	}
	names := []string{"good|good", "good|bad-verifier", "good|other-client"}
	if c.Thorough() {
		sets["good|good|good"] = []red{good, good, good}
		names = append(names, "good|good|good")
	}
	for _, n := range names {
		set := sets[n]
		bound := c.Q(2, 3)
		if len(set) == 3 {
			bound = 2
		}
		c.Explore("redeem "+n, bound, func() *x.World {
			a := newAS()
			code := a.mustCode(issA, "alice", "c1", "openid offline_access", "consent")
			res := make([]*flowv1.TokenResponse, len(set))
			w := &x.World{}
			for i := range set {
				i := i
				w.Threads = append(w.Threads, func() {
					res[i], _ = a.tok.Token(bg, exchangeReq(issA, set[i].client, code, set[i].redirect, set[i].verifier))
				})
			}
			count := func() (n int) {
				for _, r := range res {
					if granted(r) {
						n++
					}
				}
				return
			}
			w.Check = func() string {
				if k := count(); k > 1 {
					return fmt.Sprintf("one authorization code was redeemed %d times", k)
				}
				if r, _ := a.tok.Token(bg, exchangeReq(issA, "c1", code, redir1, verifierOK)); granted(r) {
					return "the code can still be redeemed after the concurrent redemptions"
				}
				return ""
			}
			w.Outcome = func() string { return fmt.Sprintf("granted=%d", count()) }
			return w
		})
	}
	lookalikes(c, []string{"code"}, "code.used", "code.client", "code.unique", "complete.exchange", "iso.code")
	repeats(c, []string{"code"}, "code.used", "code.expired", "code.unique", "complete.authorize", "complete.exchange")
	crowd(c, "codes")
	eras(c, []string{"code"}, "code.used", "code.expired", "complete.exchange")
}
