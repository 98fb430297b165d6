package checks

import (
	"fmt"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C03", Run: c03,
		Rule: "all operation sequences over push / use (owner, other client, anonymous, other issuer) / clock; product of front-channel parameter overrides; malformed request_uri values; all schedules of concurrent uses with bounded preemptions"})
}

func overrides() []struct {
	name string
	f    func(*flowv1.AuthorizationRequest)
} {
	return []struct {
		name string
		f    func(*flowv1.AuthorizationRequest)
	}{
		{"none", func(*flowv1.AuthorizationRequest) {}},
		{"scope", func(r *flowv1.AuthorizationRequest) { r.Scope = "openid admin offline_access" }},
		{"prompt", func(r *flowv1.AuthorizationRequest) { r.Prompt = sp("consent") }},
		{"redirect_uri", func(r *flowv1.AuthorizationRequest) { r.RedirectUri = redir2 }},
		{"evil redirect_uri", func(r *flowv1.AuthorizationRequest) { r.RedirectUri = "https://evil.example.net/cb" }},
		{"state", func(r *flowv1.AuthorizationRequest) { r.State = strings.Repeat("z", 40) }},
		{"nonce", func(r *flowv1.AuthorizationRequest) { r.Nonce = "another-nonce" }},
		{"code_challenge", func(r *flowv1.AuthorizationRequest) { r.CodeChallenge = s256(verifierBad) }},
		{"code_challenge_method", func(r *flowv1.AuthorizationRequest) { r.CodeChallengeMethod = "plain" }},
		{"response_mode", func(r *flowv1.AuthorizationRequest) { r.ResponseMode = sp("fragment") }},
		{"response_type", func(r *flowv1.AuthorizationRequest) { r.ResponseType = "token" }},
		{"audience", func(r *flowv1.AuthorizationRequest) { r.Audience = "urn:other" }},
		{"client_id", func(r *flowv1.AuthorizationRequest) { r.ClientId = "c2" }},
		{"own client_id", func(r *flowv1.AuthorizationRequest) { r.ClientId = "c1" }},
		{"long nonce", func(r *flowv1.AuthorizationRequest) { r.Nonce = strings.Repeat("another-nonce", 99) }},
		{"long state", func(r *flowv1.AuthorizationRequest) { r.State = strings.Repeat("another-state", 99) }},
		{"empty prompt", func(r *flowv1.AuthorizationRequest) { r.Prompt = sp("") }},
		{"prompt and scope", func(r *flowv1.AuthorizationRequest) { r.Prompt, r.Scope = sp("consent"), "openid offline_access" }},
		{"the same request", func(r *flowv1.AuthorizationRequest) { proto.Merge(r, authReq("c1")) }},
		{"ghost client_id", func(r *flowv1.AuthorizationRequest) { r.ClientId = "ghost" }},
		{"everything", func(r *flowv1.AuthorizationRequest) {
			*r = flowv1.AuthorizationRequest{Scope: "openid admin offline_access", Prompt: sp("consent"), RedirectUri: redir2, State: strings.Repeat("z", 40),
				Nonce: "another-nonce", CodeChallenge: s256(verifierBad), CodeChallengeMethod: "S256", ResponseMode: sp("fragment"), ResponseType: "code", Audience: "urn:other", ClientId: "c2"}
		}},
	}
}

func c03(c *x.Ctx) {
	strangers(c, "request_uri")
	own := []string{"par.*", "complete.push", "complete.use"}
	depth := c.Q(5, 6)
	c.Bound("history depth", fmt.Sprint(depth))
	c.Histories("pars", func(h *x.H) string {
		w := newHW(c, h, append(own, "iso.par")...)
		w.push(issA, "c1", authReq("c1"))
		return w.play(depth, func(m *menu) {
			if len(w.pars) < 2 {
				m.add(func() { w.push(issA, "c2", authReq("c2")) })
				m.add(func() { w.push(issB, "c1", authReq("c1")) })
			}
			for i := range w.pars {
				p := w.pars[i]
				m.add(func() { w.useURI(p, p.iss, p.client, "alice", nil, nil) })
				m.add(func() { w.useURI(p, p.iss, "", "alice", nil, nil) })
				m.add(func() { w.useURI(p, p.iss, map[string]string{"c1": "c2", "c2": "c1"}[p.client], "eve", nil, nil) })
				m.add(func() { w.useURI(p, map[string]string{issA: issB, issB: issA}[p.iss], p.client, "alice", nil, nil) })
			}
			m.add(func() { w.advance(59 * time.Second) })
			m.add(func() { w.advance(2 * time.Second) })
			m.add(func() { w.advance(10 * time.Minute) })
		})
	})
	for _, d := range []time.Duration{61 * time.Second, 90 * time.Second, 119 * time.Second, 121 * time.Second, 5 * time.Minute, 9 * time.Minute, 11 * time.Minute, 24 * time.Hour} {
		d := d
		c.Case(fmt.Sprintf("lifetime+%s", d), func() string {
			w := newHW(c, &x.H{}, append(own, "iso.par")...)
			p := w.push(issA, "c1", authReq("c1"))
			if w.done() {
				return w.bad
			}
			w.advance(d)
			w.useURI(p, issA, "c1", "alice", nil, nil)
			return w.bad
		})
	}
	// the pushed parameters win over every front-channel parameter, end to end
	pushes := []struct {
		name string
		f    func(*flowv1.AuthorizationRequest)
	}{
		{"plain", func(*flowv1.AuthorizationRequest) {}},
		{"redir2", func(r *flowv1.AuthorizationRequest) { r.RedirectUri = redir2 }},
		{"offline", func(r *flowv1.AuthorizationRequest) {
			r.Scope, r.Prompt = "openid offline_access", sp("consent")
		}},
		{"offline-no-consent", func(r *flowv1.AuthorizationRequest) { r.Scope = "openid offline_access" }},
		{"mode", func(r *flowv1.AuthorizationRequest) { r.ResponseMode = sp("form_post") }},
		{"jwt mode", func(r *flowv1.AuthorizationRequest) { r.ResponseMode = sp("jwt") }},
	}
	for _, p := range pushes {
		for _, o := range overrides() {
			for _, by := range []string{"c1", "", "c2"} {
				p, o, by := p, o, by
				c.Case(fmt.Sprintf("override pushed=%s front=%s by=%q", p.name, o.name, by), func() string {
					w := newHW(c, &x.H{}, append(own, "complete.exchange", "meta.scope", "meta.audience", "meta.client", "rt.unexpected", "rt.missing")...)
					q := authReq("c1")
					p.f(q)
					// what was pushed, kept apart from what the server may modify
					pushed := authReq("c1")
					p.f(pushed)
					m := w.push(issA, "c1", q)
					if w.done() {
						return w.bad
					}
					m.req = pushed
					front := &flowv1.AuthorizationRequest{}
					if o.name != "everything" {
						o.f(front)
					} else {
						front = authReq("c2")
						o.f(front)
					}
					mc := w.useURI(m, issA, by, "alice", front, func(res *flowv1.AuthorizeResponse) string {
						// what the session holds is what it holds without any front-channel parameter
						a2, q2 := newAS(), authReq("c1")
						p.f(q2)
						r2, err := a2.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: issA, Client: cli("c1"), Request: q2})
						if err != nil {
							return err.Error()
						}
						u2, err := a2.authorize(issA, "alice", "c1", &flowv1.AuthorizationRequest{RequestUri: sp(r2.RequestUri)})
						if err != nil {
							return err.Error()
						}
						s1, e1 := w.a.codes.Get(bg, issA, res.Code)
						s2, e2 := a2.codes.Get(bg, issA, u2.Code)
						if e1 != nil || e2 != nil {
							return fmt.Sprint(e1, e2)
						}
						if !proto.Equal(s1, s2) {
							return fmt.Sprintf("the session holds %v, without front-channel parameters %v", s1, s2)
						}
						mode := ""
						if pushed.ResponseMode != nil {
							mode = *pushed.ResponseMode
							if mode == "jwt" {
								mode = "query.jwt"
							}
						}
						switch {
						case res.State != pushed.State:
							return "state of the front channel used: " + res.State
						case res.RedirectUri != pushed.RedirectUri:
							return "redirect_uri of the front channel used: " + res.RedirectUri
						case res.ClientId != "c1":
							return "client_id of the front channel used: " + res.ClientId
						case res.ResponseMode != mode:
							return "response_mode is " + res.ResponseMode + ", pushed " + mode
						case res.Issuer != issA:
							return "issuer is " + res.Issuer
						}
						return ""
					})
					if w.done() || mc == nil {
						return w.bad
					}
					w.exchange(mc, issA, "c1", mc.redirect, verifierOK, "")
					return w.bad
				})
			}
		}
	}
	// admission at push time: nested references, other clients' requests
	for _, by := range []string{"c1", "c2", "ghost", "", "C1", "c1 "} {
		for _, id := range []string{"c1", "c2", "C1", ""} {
			for _, nested := range []string{"", "urn:solid:abc", "existing", "empty"} {
				by, id, nested := by, id, nested
				c.Case(fmt.Sprintf("push by=%q client_id=%q nested=%q", by, id, nested), func() string {
					a := newAS()
					q := authReq(id)
					switch nested {
					case "":
					case "empty":
						q.RequestUri = sp("")
					case "existing":
						r0, err := a.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: issA, Client: cli("c1"), Request: authReq("c1")})
						if err != nil {
							return err.Error()
						}
						q.RequestUri = sp(r0.RequestUri)
					default:
						q.RequestUri = sp(nested)
					}
					res, err := a.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: issA, Client: cli(by), Request: q})
					c.Step()
					ok := by == id && (id == "c1" || id == "c2") && nested == ""
					got := err == nil && res.GetRequestUri() != ""
					c.Outcome(fmt.Sprintf("push accepted=%v", got))
					if got != ok {
						return fmt.Sprintf("push accepted=%v, must be %v (%v)", got, ok, err)
					}
					if !got && (res.GetRequestUri() != "" || res.GetError() == nil) {
						return fmt.Sprintf("refused push answers %v", res)
					}
					return ""
				})
			}
		}
	}
	// request_uri values which were never handed out
	for i, mk := range []func(u string) string{
		func(u string) string { return "" }, func(u string) string { return u + "x" }, func(u string) string { return u[:len(u)-1] }, strings.ToUpper, strings.ToLower,
		func(u string) string { return " " + u }, func(u string) string { return u + "\n" }, func(u string) string { return u + "\x00" },
		func(u string) string { return "x" + u }, func(u string) string { return u + "&request_uri=" + u },
		func(u string) string { return strings.Replace(u, "urn:solid:", "urn:solid:%20", 1) },
		func(u string) string { return strings.TrimPrefix(u, "urn:solid:") }, func(u string) string { return "https://evil.example.net/" + u },
		func(u string) string { return "URN:SOLID:" + strings.TrimPrefix(u, "urn:solid:") },
	} {
		mk := mk
		c.Case(fmt.Sprintf("unknown request_uri %d", i), func() string {
			a := newAS()
			r0, err := a.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: issA, Client: cli("c1"), Request: authReq("c1")})
			if err != nil {
				return err.Error()
			}
			v := mk(r0.RequestUri)
			if v == r0.RequestUri {
				return ""
			}
			q := authReq("c1") // otherwise valid front-channel parameters
			q.RequestUri = sp(v)
			res, err := a.authorize(issA, "alice", "c1", q)
			c.Step()
			if err == nil || res.GetCode() != "" || res.GetError() == nil {
				return fmt.Sprintf("request_uri %q was accepted (registered: %q)", v, r0.RequestUri)
			}
			// and it did not consume the registered one
			res, err = a.authorize(issA, "alice", "c1", &flowv1.AuthorizationRequest{RequestUri: sp(r0.RequestUri)})
			if err != nil || res.GetCode() == "" {
				return fmt.Sprintf("the registered request_uri was refused afterwards: %v", err)
			}
			return ""
		})
	}
	// concurrent uses
	worlds := []struct {
		name string
		by   []string
	}{{"owner|owner", []string{"c1", "c1"}}, {"owner|anonymous", []string{"c1", ""}}, {"owner|other", []string{"c1", "c2"}}}
	if c.Thorough() {
		worlds = append(worlds, struct {
			name string
			by   []string
		}{"three", []string{"c1", "", "c1"}})
	}
	for _, wd := range worlds {
		wd := wd
		bound := c.Q(2, 3)
		if len(wd.by) == 3 {
			bound = 2
		}
		c.Explore("use "+wd.name, bound, func() *x.World {
			a := newAS()
			r0, err := a.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: issA, Client: cli("c1"), Request: authReq("c1")})
			if err != nil {
				panic(err)
			}
			res := make([]*flowv1.AuthorizeResponse, len(wd.by))
			w := &x.World{}
			for i := range wd.by {
				i := i
				w.Threads = append(w.Threads, func() {
					q := &flowv1.AuthorizeRequest{Issuer: issA, Subject: "alice", Request: &flowv1.AuthorizationRequest{RequestUri: sp(r0.RequestUri)}}
					if wd.by[i] != "" {
						q.Client = cli(wd.by[i])
					}
					res[i], _ = a.auth.Authorize(bg, q)
				})
			}
			count := func() (n int) {
				for _, r := range res {
					if r.GetCode() != "" {
						n++
					}
				}
				return
			}
			w.Check = func() string {
				if k := count(); k > 1 {
					return fmt.Sprintf("one request_uri produced %d authorization codes", k)
				}
				for i, r := range res {
					if r.GetCode() != "" && wd.by[i] == "c2" {
						return "another client used the request_uri"
					}
				}
				r, _ := a.authorize(issA, "alice", "c1", &flowv1.AuthorizationRequest{RequestUri: sp(r0.RequestUri)})
				if r.GetCode() != "" {
					return "the request_uri can still be used"
				}
				return ""
			}
			w.Outcome = func() string { return fmt.Sprintf("codes=%d", count()) }
			return w
		})
	}
	lookalikes(c, []string{"par"}, append(own, "iso.par")...)
	repeats(c, []string{"par"}, append(own, "meta.subject", "meta.client", "meta.scope")...)
	crowd(c, "request_uris")
	eras(c, []string{"par"}, own...)
	wildTexts(c, "par")
}
