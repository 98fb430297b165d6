package checks

import (
	"fmt"
	"net/url"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"

	"verif.local/mc/x"
)

// lookalikes presents the artefacts of one client at one issuer by every client, at every
// issuer and with every value which looks like the right one without being it, and then
// the right way. ops: code, par, poll, user, refresh, tx, revoke, introspect.
func lookalikes(c *x.Ctx, ops []string, own ...string) {
	type attempt struct {
		what, owner, thief, at, val string
		registered                  bool
	}
	var as []attempt
	for _, n := range near("c1") {
		for _, reg := range []bool{false, true} {
			as = append(as, attempt{what: "client", owner: "c1", thief: n, at: issA, registered: reg})
		}
		as = append(as, attempt{what: "client", owner: n, thief: "c1", at: issA, registered: true})
	}
	for _, i := range near(issA) {
		as = append(as, attempt{what: "issuer", owner: "c1", thief: "c1", at: i})
	}
	c.Bound("look-alike attempts per artefact", fmt.Sprint(len(as)+len(near("x1"))))
	start := func(a attempt) *hw {
		w := newHW(c, &x.H{}, own...)
		if a.registered {
			for _, id := range []string{a.owner, a.thief} {
				w.a.clients.m[id] = newClient(id, tConf, gtCode, gtCC, gtDevice, gtRefresh, gtExchange)
			}
		}
		return w
	}
	for _, op := range ops {
		for i, a := range as {
			op, a := op, a
			c.Case(fmt.Sprintf("look-alike %d: %s of %q by %q (registered %v) at %q", i, op, a.owner, a.thief, a.registered, a.at), func() string {
				w := start(a)
				if op == "introspect" {
					if _, err := url.ParseRequestURI(a.at); err != nil {
						return ""
					}
				}
				switch op {
				case "code":
					if k := w.authorize(issA, a.owner, "alice", "openid offline_access", sp("consent")); k != nil {
						w.exchange(k, a.at, a.thief, redir1, verifierOK, "")
						if !w.done() {
							w.exchange(k, issA, a.owner, redir1, verifierOK, "")
						}
					}
				case "par":
					if p := w.push(issA, a.owner, authReq(a.owner)); p != nil {
						w.useURI(p, a.at, a.thief, "alice", nil, nil)
						if !w.done() {
							w.useURI(p, issA, a.owner, "alice", nil, nil)
						}
					}
				case "user", "poll":
					d := w.device(issA, a.owner, sp("openid"), nil)
					if d == nil {
						break
					}
					if op == "user" {
						w.approve(d, a.at, d.uc, "eve")
					}
					if !w.done() {
						w.poll(d, a.at, a.thief, d.dc, "")
					}
					if !w.done() {
						w.approve(d, issA, d.uc, "alice")
					}
					if !w.done() {
						w.poll(d, a.at, a.thief, d.dc, "")
					}
					if !w.done() {
						w.poll(d, issA, a.owner, d.dc, "")
					}
				default:
					if !w.issue(issA, a.owner, "alice", "openid offline_access", "jkt") {
						break
					}
					for _, t := range w.toks[:2] {
						switch {
						case w.done():
						case op == "refresh":
							w.refresh(t, a.at, a.thief, t.val, nil, "")
						case op == "tx":
							w.txchange(t, a.at, a.thief, t.val, nil, nil)
						case op == "introspect":
							w.introspect(t, a.at, a.thief, t.val)
						case op == "revoke":
							w.revoke(t, a.at, a.thief, t.val)
							if !w.done() {
								w.introspect(t, issA, a.owner, t.val)
							}
						}
					}
					if t := w.toks[1]; !w.done() {
						w.refresh(t, issA, a.owner, t.val, nil, "")
					}
					if t := w.toks[0]; !w.done() {
						w.txchange(t, issA, a.owner, t.val, nil, nil)
					}
				}
				return w.bad
			})
		}
		for i := range near("Ab-3_x1") {
			op, i := op, i
			alike := func(v string) string {
				if ns := near(v); i < len(ns) {
					return ns[i]
				}
				return v + "zz"
			}
			c.Case(fmt.Sprintf("look-alike value %d: %s", i, op), func() string {
				w := start(attempt{})
				switch op {
				case "code":
					k := w.authorize(issA, "c1", "alice", "openid offline_access", sp("consent"))
					if k == nil {
						break
					}
					c.Step()
					if res, _ := w.a.tok.Token(bg, exchangeReq(issA, "c1", alike(k.val), redir1, verifierOK)); granted(res) {
						w.disc("code.used", "the code %q was redeemed as %q", k.val, alike(k.val))
					}
					if !w.done() {
						w.exchange(k, issA, "c1", redir1, verifierOK, "")
					}
				case "par":
					p := w.push(issA, "c1", authReq("c1"))
					if p == nil {
						break
					}
					c.Step()
					res, _ := w.a.auth.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: issA, Subject: "alice", Client: cli("c1"), Request: &flowv1.AuthorizationRequest{RequestUri: sp(alike(p.uri))}})
					if res.GetCode() != "" {
						w.disc("par.unknown", "the request_uri %q was used as %q", p.uri, alike(p.uri))
					}
					if !w.done() {
						w.useURI(p, issA, "c1", "alice", nil, nil)
					}
				case "user", "poll":
					d := w.device(issA, "c1", sp("openid"), nil)
					if d == nil {
						break
					}
					if op == "user" {
						w.approve(d, issA, alike(d.uc), "eve")
						if !w.done() {
							w.poll(d, issA, "c1", d.dc, "")
						}
					}
					if !w.done() {
						w.approve(d, issA, d.uc, "alice")
					}
					if op == "poll" && !w.done() {
						w.poll(d, issA, "c1", alike(d.dc), "")
					}
					if !w.done() {
						w.poll(d, issA, "c1", d.dc, "")
					}
				default:
					if !w.issue(issA, "c1", "alice", "openid offline_access", "jkt") {
						break
					}
					at, rt := w.toks[0], w.toks[1]
					switch op {
					case "refresh":
						w.refresh(rt, issA, "c1", alike(rt.val), nil, "")
					case "tx":
						w.txchange(at, issA, "c1", alike(at.val), nil, nil)
					case "introspect":
						w.introspect(at, issA, "c1", alike(at.val))
					case "revoke":
						w.revoke(at, issA, "c1", alike(at.val))
						if !w.done() {
							w.introspect(at, issA, "c1", at.val)
						}
					}
					if !w.done() {
						w.refresh(rt, issA, "c1", rt.val, nil, "")
					}
					if !w.done() {
						w.txchange(at, issA, "c1", at.val, nil, nil)
					}
				}
				return w.bad
			})
		}
	}
}
