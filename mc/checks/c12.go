package checks

import (
	"fmt"
	"time"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage/inmemory"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C12", Run: c12,
		Rule: "all histories which create artefacts at three issuers (one a prefix of another) and present each of them at every issuer; all ways of splitting one string into (issuer, value) at every storage; full set of issuer spellings"})
}

func c12(c *x.Ctx) {
	own := []string{"iso.*", "complete.*", "intro.meta", "intro.active", "meta.issuer", "meta.stored"}
	isss := []string{issA, issB, issC, issA + "/", "https://AS.example.com/t", "https://as.example.com/T", "https://as.example.com/t?x=1", "https://as.example.com", "http://as.example.com/t"}
	depth := c.Q(3, 4)
	c.Bound("history depth", fmt.Sprint(depth))
	c.Histories("cross issuer", func(h *x.H) string {
		w := newHW(c, h, own...)
		// the home issuer of each artefact, and where it is presented
		home := []string{issA, issB, issC}[h.Choose(3)]
		k := w.authorize(home, "c1", "alice", "openid offline_access", sp("consent"))
		p := w.push(home, "c1", authReq("c1"))
		d := w.device(home, "c1", nil, nil)
		if w.done() {
			return w.bad
		}
		return w.play(depth, func(m *menu) {
			for _, is := range []string{issA, issB, issC} {
				is := is
				m.add(func() { w.exchange(k, is, "c1", redir1, verifierOK, "") })
				m.add(func() { w.useURI(p, is, "c1", "alice", nil, nil) })
				m.add(func() { w.approve(d, is, d.uc, "alice") })
				m.add(func() { w.poll(d, is, "c1", d.dc, "") })
				for i := range w.toks {
					if i > 1 {
						break
					}
					t := w.toks[i]
					if t.typ == typRT {
						m.add(func() { w.refresh(t, is, "c1", t.val, nil, "") })
					} else {
						m.add(func() { w.txchange(t, is, "c1", t.val, nil, nil) })
					}
					m.add(func() { w.introspect(t, is, "c1", t.val) })
					m.add(func() { w.revoke(t, is, "c1", t.val) })
				}
			}
		})
	})
	for _, home := range isss {
		for _, at := range isss {
			for _, what := range []string{"code", "par", "user", "device", "refresh", "tx", "introspect", "revoke"} {
				home, at, what := home, at, what
				c.Case(fmt.Sprintf("%s of %s at %s", what, home, at), func() string {
					w := newHW(c, &x.H{}, own...)
					switch what {
					case "code":
						if k := w.authorize(home, "c1", "alice", "openid", nil); k != nil {
							w.exchange(k, at, "c1", redir1, verifierOK, "")
						}
					case "par":
						if p := w.push(home, "c1", authReq("c1")); p != nil {
							w.useURI(p, at, "c1", "alice", nil, nil)
						}
					case "user", "device":
						d := w.device(home, "c1", nil, nil)
						if d == nil {
							break
						}
						if what == "user" {
							w.approve(d, at, d.uc, "alice")
						} else {
							w.approve(d, home, d.uc, "alice")
							w.poll(d, at, "c1", d.dc, "")
						}
					default:
						if !w.issue(home, "c1", "alice", "openid offline_access", "") {
							return w.bad
						}
						at0, rt0 := w.toks[0], w.toks[1]
						switch what {
						case "refresh":
							w.refresh(rt0, at, "c1", rt0.val, nil, "")
						case "tx":
							w.txchange(at0, at, "c1", at0.val, nil, nil)
						case "introspect":
							w.introspect(at0, at, "c1", at0.val)
						case "revoke":
							w.revoke(at0, at, "c1", at0.val)
							w.introspect(at0, home, "c1", at0.val)
						}
					}
					return w.bad
				})
			}
		}
	}
	// same artefact value registered at several issuers: each issuer keeps its own
	type kv struct{ iss, val string }
	splits := func(s string) (out []kv) {
		for i := 1; i < len(s); i++ {
			out = append(out, kv{s[:i], s[i:]})
		}
		return
	}
	strs := []string{"aab", "abab", "https://a/t2x", "a:b:c", "a|b|c", "aaaaaa", "a/b/c", "a.b.c", "a\nb\n"}
	for _, s := range strs {
		sp := splits(s)
		for i := range sp {
			for j := range sp {
				a, b := sp[i], sp[j]
				c.Case(fmt.Sprintf("stores (%q,%q) vs (%q,%q)", a.iss, a.val, b.iss, b.val), func() string {
					same := a == b
					c.Step()
					c.State(fmt.Sprint(a, b))
					codes, pars, devs, toks := inmemory.AuthorizationCodeSessions(), inmemory.AuthorizationRequests(), inmemory.DeviceCodeSessions(), inmemory.Tokens()
					codes.Register(bg, a.iss, a.val, &sessionv1.AuthorizationCodeSession{Subject: "first"})
					if x, err := codes.Get(bg, b.iss, b.val); (err == nil) != same {
						return fmt.Sprintf("authorization code visible: %v %v", x, err)
					}
					if err := codes.Delete(bg, b.iss, b.val); (err == nil) != same {
						return fmt.Sprintf("authorization code deleted through another issuer: %v", err)
					}
					pars.Register(bg, a.iss, a.val, &flowv1.AuthorizationRequest{State: "first"})
					if x, err := pars.Get(bg, b.iss, b.val); (err == nil) != same {
						return fmt.Sprintf("authorization request visible: %v %v", x, err)
					}
					if err := pars.Delete(bg, b.iss, b.val); (err == nil) != same {
						return fmt.Sprintf("authorization request deleted through another issuer: %v", err)
					}
					devs.Register(bg, a.iss, a.val, &sessionv1.DeviceCodeSession{Issuer: a.iss, DeviceCode: a.val, Status: devPending})
					if x, err := devs.GetByUserCode(bg, b.iss, b.val); (err == nil) != same {
						return fmt.Sprintf("user code visible: %v %v", x, err)
					}
					if x, err := devs.GetByDeviceCode(bg, b.iss, b.val); (err == nil) != same {
						return fmt.Sprintf("device code visible: %v %v", x, err)
					}
					devs.Delete(bg, b.iss, b.val)
					if _, err := devs.GetByUserCode(bg, a.iss, a.val); (err != nil) != same {
						return "user code deleted through another issuer"
					}
					toks.Create(bg, a.iss, &tokenv1.Token{TokenId: a.val, Value: a.val, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE})
					if x, err := toks.Get(bg, b.iss, b.val); (err == nil) != same {
						return fmt.Sprintf("token id visible: %v %v", x, err)
					}
					if x, err := toks.GetByValue(bg, b.iss, b.val); (err == nil) != same {
						return fmt.Sprintf("token value visible: %v %v", x, err)
					}
					toks.Revoke(bg, b.iss, b.val)
					if x, err := toks.GetByValue(bg, a.iss, a.val); err != nil || (x.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED) != same {
						return "token revoked through another issuer"
					}
					toks.Delete(bg, b.iss, b.val)
					if _, err := toks.GetByValue(bg, a.iss, a.val); (err != nil) != same {
						return "token deleted through another issuer"
					}
					return ""
				})
				// both registered, neither disturbs the other
				if a == b {
					continue
				}
				c.Case(fmt.Sprintf("both (%q,%q) and (%q,%q)", a.iss, a.val, b.iss, b.val), func() string {
					codes, pars, devs, toks := inmemory.AuthorizationCodeSessions(), inmemory.AuthorizationRequests(), inmemory.DeviceCodeSessions(), inmemory.Tokens()
					c.Step()
					for i, k := range []kv{a, b} {
						n := fmt.Sprint(i)
						codes.Register(bg, k.iss, k.val, &sessionv1.AuthorizationCodeSession{Subject: n})
						pars.Register(bg, k.iss, k.val, &flowv1.AuthorizationRequest{State: n})
						devs.Register(bg, k.iss, k.val, &sessionv1.DeviceCodeSession{Issuer: k.iss, DeviceCode: k.val, Status: devPending, Audience: &n})
						toks.Create(bg, k.iss, &tokenv1.Token{TokenId: k.val, Value: k.val, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{Subject: n}})
					}
					for i, k := range []kv{a, b} {
						n := fmt.Sprint(i)
						if x, err := codes.Get(bg, k.iss, k.val); err != nil || x.Subject != n {
							return fmt.Sprintf("code of %v is %v", k, x)
						}
						if x, err := pars.Get(bg, k.iss, k.val); err != nil || x.State != n {
							return fmt.Sprintf("request of %v is %v", k, x)
						}
						if x, err := devs.GetByUserCode(bg, k.iss, k.val); err != nil || x.GetAudience() != n {
							return fmt.Sprintf("user code of %v is %v", k, x)
						}
						if x, err := devs.GetByDeviceCode(bg, k.iss, k.val); err != nil || x.GetAudience() != n {
							return fmt.Sprintf("device code of %v is %v", k, x)
						}
						if x, err := toks.Get(bg, k.iss, k.val); err != nil || x.Metadata.Subject != n {
							return fmt.Sprintf("token id of %v is %v", k, x)
						}
						if x, err := toks.GetByValue(bg, k.iss, k.val); err != nil || x.Metadata.Subject != n {
							return fmt.Sprintf("token of %v is %v", k, x)
						}
					}
					return ""
				})
			}
		}
	}
	_ = time.Second
	lookalikes(c, []string{"code", "par", "user", "poll", "refresh", "tx", "revoke", "introspect"}, own...)
	repeats(c, []string{"code", "par", "device", "token"}, own...)
	longIssuers(c, []string{"code", "par", "device", "token"}, own...)
}
