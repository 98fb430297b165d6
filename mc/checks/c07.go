package checks

import (
	"fmt"
	"strings"
	"time"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C07", Run: c07,
		Rule: "all operation sequences over device request / poll (owner, other client, other issuer, wrong code) / approve (right, used, wrong, other issuer) / clock; product of request variants; all stored session states; all schedules of concurrent approvals and polls with bounded preemptions"})
}

func c07(c *x.Ctx) {
	strangers(c, "device code")
	own := []string{"dev.*", "user.*", "iso.user", "iso.device", "complete.device", "complete.approve", "complete.poll", "meta.subject", "meta.scope", "meta.audience", "meta.client", "rt.*", "client.grant"}
	depth := c.Q(5, 6)
	c.Bound("history depth", fmt.Sprint(depth))
	other := map[string]string{"c1": "c2", "pub": "c1", "c2": "c1"}
	c.Histories("device", func(h *x.H) string {
		w := newHW(c, h, own...)
		w.device(issA, "c1", sp("openid offline_access"), sp("urn:api"))
		return w.play(depth, func(m *menu) {
			if len(w.devs) < 2 {
				m.add(func() { w.device(issA, "pub", sp("profile"), nil) })
				m.add(func() { w.device(issB, "c1", nil, sp("urn:b")) })
			}
			for i := range w.devs {
				d := w.devs[i]
				m.add(func() { w.poll(d, d.iss, d.client, d.dc, "") })
				m.add(func() { w.poll(d, d.iss, other[d.client], d.dc, "") })
				m.add(func() { w.approve(d, d.iss, d.uc, "alice") })
				m.add(func() { w.approve(d, d.iss, d.uc, "bob") })
				if i == 0 {
					m.add(func() { w.poll(d, issB, d.client, d.dc, "") })
					m.add(func() { w.approve(d, issB, d.uc, "eve") })
					m.add(func() { w.poll(d, d.iss, d.client, d.uc, "") })
					m.add(func() { w.approve(d, d.iss, d.dc, "eve") })
				}
			}
			m.add(func() { w.advance(119 * time.Second) })
			m.add(func() { w.advance(2 * time.Second) })
		})
	})
	// lifetime, with approval at every point
	for _, at := range []time.Duration{0, time.Second, 60 * time.Second, 119 * time.Second, 121 * time.Second, 3 * time.Minute} {
		for _, d := range []time.Duration{0, time.Second, 59 * time.Second, 61 * time.Second, 118 * time.Second, 119 * time.Second, 121 * time.Second, 4 * time.Minute, 11 * time.Minute, 24 * time.Hour} {
			at, d := at, d
			if at+d == 120*time.Second {
				continue
			}
			c.Case(fmt.Sprintf("lifetime approve+%s poll+%s", at, d), func() string {
				w := newHW(c, &x.H{}, own...)
				k := w.device(issA, "c1", nil, nil)
				if w.done() {
					return w.bad
				}
				w.advance(at)
				w.approve(k, issA, k.uc, "alice")
				if w.done() {
					return w.bad
				}
				w.advance(d)
				w.poll(k, issA, "c1", k.dc, "")
				return w.bad
			})
		}
	}
	// request variants end to end
	opt := []*string{nil, sp(""), sp("openid"), sp("openid offline_access"), sp("a b c")}
	for _, cl := range []string{"c1", "pub", "none", "ghost", "", "C1"} {
		for _, iss := range []string{issA, issC, ""} {
			for _, s := range opt {
				for _, au := range []*string{nil, sp(""), sp("urn:api")} {
					for _, sub := range []string{"alice", "", " "} {
						for _, jkt := range []string{"", "jkt"} {
							cl, iss, s, au, sub, jkt := cl, iss, s, au, sub, jkt
							c.Case(fmt.Sprintf("request client=%q iss=%q scope=%s aud=%s sub=%q cnf=%q", cl, iss, deref(s), deref(au), sub, jkt), func() string {
								w := newHW(c, &x.H{}, append(own, "meta.cnf")...)
								res, err := w.a.dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: cl, Scope: s, Audience: au})
								c.Step()
								ok := (cl == "c1" || cl == "pub") && iss != ""
								got := err == nil && res.GetDeviceCode() != ""
								if got != ok {
									return fmt.Sprintf("device authorization accepted=%v, must be %v: %v", got, ok, err)
								}
								if got != (res.GetError() == nil) {
									return fmt.Sprintf("accepted=%v with protocol error %v", got, res.GetError())
								}
								if !got {
									if res.GetUserCode() != "" || res.GetDeviceCode() != "" {
										return "codes returned with an error"
									}
									return ""
								}
								k := &mdev{dc: res.DeviceCode, uc: res.UserCode, iss: iss, client: cl, ttl: time.Duration(res.ExpiresIn) * time.Second}
								if s != nil {
									k.scope = *s
								}
								if au != nil {
									k.aud = *au
								}
								if res.ExpiresIn == 0 || res.ExpiresIn > 1800 {
									return fmt.Sprintf("device code lives %d s", res.ExpiresIn)
								}
								w.poll(k, iss, cl, k.dc, jkt)
								w.approve(k, iss, k.uc, sub)
								if !w.done() {
									w.poll(k, iss, cl, k.dc, jkt)
								}
								return w.bad
							})
						}
					}
				}
			}
		}
	}
	// user code variants
	for i, mk := range []func(u string) string{
		func(u string) string { return "" }, func(u string) string { return u + "A" }, func(u string) string { return u[:len(u)-1] }, func(u string) string { return " " + u },
		func(u string) string { return u + " " }, func(u string) string { return u + "\x00" }, func(u string) string { return u[1:] + u[:1] }, strings.ToLower,
		func(u string) string { return "AAAA-AAAA" }, func(u string) string { return u + u },
	} {
		mk := mk
		c.Case(fmt.Sprintf("user code variant %d", i), func() string {
			w := newHW(c, &x.H{}, own...)
			k := w.device(issA, "c1", nil, nil)
			if w.done() {
				return w.bad
			}
			v := mk(k.uc)
			if v == k.uc || strings.EqualFold(v, k.uc) {
				return ""
			}
			w.approve(k, issA, v, "eve")
			if !w.done() {
				w.poll(k, issA, "c1", k.dc, "")
			}
			if !w.done() {
				w.poll(k, issA, "c1", mk(k.dc), "")
			}
			return w.bad
		})
	}
	// every status a stored session may have: only a validated one yields tokens
	for st := int32(-1); st < 8; st++ {
		for _, sub := range []*string{nil, sp("alice")} {
			for _, exp := range []int64{-120, -1, 1, 120} {
				for _, owner := range []string{"c1", "c2", ""} {
					st, sub, exp, owner := st, sub, exp, owner
					c.Case(fmt.Sprintf("stored status=%d subject=%s exp=%+d owner=%q", st, deref(sub), exp, owner), func() string {
						a := newAS()
						s := &sessionv1.DeviceCodeSession{Issuer: issA, Client: newClient(owner, tConf, gtDevice), DeviceCode: "dc", Subject: sub,
							Request: &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: owner}, Status: sessionv1.DeviceCodeStatus(st)}
						fixed := &fixedDev{s: s}
						s.ExpiresAt = uint64(rt.Now().Unix() + exp)
						a.useDevs(fixed)
						res, err := a.tok.Token(bg, pollReq(issA, "c1", "dc"))
						c.Step()
						ok := sessionv1.DeviceCodeStatus(st) == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED && sub != nil && exp > 0 && owner == "c1"
						if m := shape(res, err); m != "" {
							return m
						}
						c.Outcome(fmt.Sprintf("stored granted=%v", granted(res)))
						if granted(res) != ok {
							return fmt.Sprintf("granted=%v, must be %v: %v", granted(res), ok, err)
						}
						v, err := a.dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: issA, UserCode: "uc", Subject: "bob"})
						okV := sessionv1.DeviceCodeStatus(st) == devPending && exp > 0
						if okV && fixed.validated == nil || !okV && fixed.validated != nil {
							return fmt.Sprintf("approval recorded=%v, must be %v: %v %v", fixed.validated != nil, okV, err, v)
						}
						return ""
					})
				}
			}
		}
	}
	// concurrency
	type world struct {
		name string
		ops  []string
	}
	worlds := []world{{"alice|bob", []string{"alice", "bob"}}, {"alice|poll", []string{"alice", "poll"}}}
	if c.Thorough() {
		worlds = append(worlds, world{"alice|bob|poll", []string{"alice", "bob", "poll"}}, world{"alice|poll|poll", []string{"alice", "poll", "poll"}})
	}
	for _, wd := range worlds {
		wd := wd
		bound := c.Q(2, 3)
		if len(wd.ops) == 3 {
			bound = 2
		}
		c.Explore("device "+wd.name, bound, func() *x.World {
			a := newAS()
			d, err := a.dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: "c1", Scope: sp("openid")})
			if err != nil {
				panic(err)
			}
			okBy := make([]bool, len(wd.ops))
			polled := make([]*flowv1.TokenResponse, len(wd.ops))
			w := &x.World{}
			for i, op := range wd.ops {
				i, op := i, op
				if op == "poll" {
					w.Threads = append(w.Threads, func() { polled[i], _ = a.tok.Token(bg, pollReq(issA, "c1", d.DeviceCode)) })
				} else {
					w.Threads = append(w.Threads, func() {
						_, err := a.dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: issA, UserCode: d.UserCode, Subject: op})
						okBy[i] = err == nil
					})
				}
			}
			w.Check = func() string {
				win := ""
				n := 0
				for i, ok := range okBy {
					if ok {
						n++
						win = wd.ops[i]
					}
				}
				if n > 1 {
					return fmt.Sprintf("one user code was approved by %d users", n)
				}
				fin, _ := a.tok.Token(bg, pollReq(issA, "c1", d.DeviceCode))
				for _, p := range append(polled, fin) {
					if granted(p) {
						if n == 0 {
							return "tokens without an approval"
						}
						if p.AccessToken.Metadata.Subject != win {
							return fmt.Sprintf("tokens for %q, approved by %q", p.AccessToken.Metadata.Subject, win)
						}
					}
				}
				if n == 1 && !granted(fin) {
					return "the approved device gets no token"
				}
				if n == 0 {
					return "no approval succeeded"
				}
				return ""
			}
			w.Outcome = func() string {
				g := 0
				for _, p := range polled {
					if granted(p) {
						g++
					}
				}
				return fmt.Sprintf("polled=%d", g)
			}
			return w
		})
	}
	lookalikes(c, []string{"user", "poll"}, own...)
	repeats(c, []string{"device"}, own...)
	crowd(c, "device codes")
	eras(c, []string{"device"}, own...)
	wildTexts(c, "device")
}
