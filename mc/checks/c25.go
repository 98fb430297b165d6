package checks

import (
	"fmt"
	"sort"
	"strings"
	"time"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C25", Race: true, Run: c25,
		Rule: "all operation sequences over two issuers, two keys and the clock on every in-memory storage against a reference map; all schedules of concurrent operations with bounded preemptions, every recorded history checked for linearizability by brute force"})
}

// sop is one storage operation: it is applied to the implementation and, through the
// reference model, to a plain map. Both give a string.
type sop struct {
	name string
	real func(s any) string
	ref  func(m map[string]string) string
	ttl  []string // the keys whose lifetime a successful call starts
}

func errStr(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

// kvOps are the operations of a storage with Register/Get/Delete.
func codeOps(iss, key string) []sop {
	k := iss + "|" + key
	reg := func(v string) sop {
		return sop{"register(" + k + "," + v + ")", func(s any) string {
			ttl, err := s.(storage.AuthorizationCodeSession).Register(bg, iss, key, &sessionv1.AuthorizationCodeSession{Subject: v})
			return fmt.Sprint(ttl > 0, errStr(err))
		}, func(m map[string]string) string { m[k] = v; return "trueok" }, []string{k}}
	}
	return []sop{reg("1"), reg("2"),
		{"get(" + k + ")", func(s any) string {
			r, err := s.(storage.AuthorizationCodeSession).Get(bg, iss, key)
			if err != nil {
				return "error"
			}
			return r.Subject
		}, refGet(k), nil},
		{"delete(" + k + ")", func(s any) string {
			return errStr(s.(storage.AuthorizationCodeSession).Delete(bg, iss, key))
		}, refDel(k), nil},
	}
}

func refGet(k string) func(m map[string]string) string {
	return func(m map[string]string) string {
		if v, ok := m[k]; ok {
			return v
		}
		return "error"
	}
}

func refDel(k string) func(m map[string]string) string {
	return func(m map[string]string) string {
		if _, ok := m[k]; !ok {
			return "error"
		}
		delete(m, k)
		return "ok"
	}
}

func parOps(iss, key string) []sop {
	k := iss + "|" + key
	reg := func(v string) sop {
		return sop{"register(" + k + "," + v + ")", func(s any) string {
			ttl, err := s.(storage.AuthorizationRequest).Register(bg, iss, key, &flowv1.AuthorizationRequest{State: v})
			return fmt.Sprint(ttl > 0, errStr(err))
		}, func(m map[string]string) string { m[k] = v; return "trueok" }, []string{k}}
	}
	return []sop{reg("1"), reg("2"),
		{"get(" + k + ")", func(s any) string {
			r, err := s.(storage.AuthorizationRequest).Get(bg, iss, key)
			if err != nil {
				return "error"
			}
			return r.State
		}, refGet(k), nil},
		{"delete(" + k + ")", func(s any) string {
			return errStr(s.(storage.AuthorizationRequest).Delete(bg, iss, key))
		}, refDel(k), nil},
	}
}

func proofOps(key string) []sop {
	return []sop{
		{"register(" + key + ")", func(s any) string { return errStr(s.(storage.DPoP).Register(bg, key)) }, func(m map[string]string) string {
			if _, ok := m[key]; ok {
				return "error"
			}
			m[key] = "1"
			return "ok"
		}, []string{key}},
		{"exists(" + key + ")", func(s any) string {
			ok, err := s.(storage.DPoP).Exists(bg, key)
			return fmt.Sprint(ok, errStr(err))
		}, func(m map[string]string) string { _, ok := m[key]; return fmt.Sprint(ok, "ok") }, nil},
		{"delete(" + key + ")", func(s any) string { return errStr(s.(storage.DPoP).Delete(bg, key)) }, func(m map[string]string) string { delete(m, key); return "ok" }, nil},
	}
}

// tokOps: value lookups and id lookups are two views; the model keeps status and subject.
func tokOps(iss, id string, views string) []sop {
	k := iss + "|" + id
	val := "value-of-" + id
	show := func(t *tokenv1.Token, err error) string {
		if err != nil {
			return "error"
		}
		s := t.Status.String() + "/" + t.Metadata.GetSubject() + "/" + t.TokenId
		// what the caller does with the returned token is its own business
		t.Status, t.Metadata.Subject, t.TokenId = tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED, "mallory", "x"
		return s
	}
	out := []sop{
		{"create(" + k + ")", func(s any) string {
			t := &tokenv1.Token{TokenId: id, Value: val, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{Subject: "s"}}
			err := s.(storage.Token).Create(bg, iss, t)
			if t.Value != val {
				return "the caller's token was changed"
			}
			t.Status, t.Metadata.Subject, t.TokenId = tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED, "mallory", "x"
			return errStr(err)
		}, func(m map[string]string) string { m[k] = "TOKEN_STATUS_ACTIVE/s/" + id; return "ok" }, nil},
		{"revoke(" + k + ")", func(s any) string { return errStr(s.(storage.Token).Revoke(bg, iss, id)) }, func(m map[string]string) string {
			if v, ok := m[k]; !ok || strings.HasPrefix(v, "TOKEN_STATUS_REVOKED") {
				return "error"
			}
			m[k] = "TOKEN_STATUS_REVOKED/s/" + id
			return "ok"
		}, nil},
		{"delete(" + k + ")", func(s any) string { return errStr(s.(storage.Token).Delete(bg, iss, id)) }, refDel(k), nil},
	}
	if strings.Contains(views, "i") {
		out = append(out, sop{"get(" + k + ")", func(s any) string { return show(s.(storage.Token).Get(bg, iss, id)) }, refGet(k), nil})
	}
	if strings.Contains(views, "v") {
		out = append(out, sop{"getByValue(" + k + ")", func(s any) string { return show(s.(storage.Token).GetByValue(bg, iss, val)) }, refGet(k), nil})
	}
	return out
}

func devOps(iss, uc string, views string) []sop {
	ku, kd := "u|"+iss+"|"+uc, "d|"+iss+"|"+uc
	dc := "device-" + uc
	show := func(d *sessionv1.DeviceCodeSession, err error) string {
		if err != nil {
			return "error"
		}
		s := d.Status.String() + "/" + d.GetSubject()
		d.Status, d.Subject = 99, sp("mallory")
		return s
	}
	out := []sop{
		{"register(" + uc + ")", func(s any) string {
			ttl, err := s.(storage.DeviceCodeSession).Register(bg, iss, uc, &sessionv1.DeviceCodeSession{Issuer: iss, DeviceCode: dc, Status: devPending})
			return fmt.Sprint(ttl > 0, errStr(err))
		}, func(m map[string]string) string {
			v := devPending.String() + "/"
			m[ku], m[kd] = v, v
			return "trueok"
		}, []string{ku, kd}},
		{"delete(" + uc + ")", func(s any) string { return errStr(s.(storage.DeviceCodeSession).Delete(bg, iss, uc)) }, func(m map[string]string) string {
			delete(m, ku)
			return "ok"
		}, nil},
	}
	for _, sub := range []string{"alice", "bob"} {
		sub := sub
		out = append(out, sop{"validate(" + uc + "," + sub + ")", func(s any) string {
			return errStr(s.(storage.DeviceCodeSession).Validate(bg, iss, uc, &sessionv1.DeviceCodeSession{Issuer: iss, DeviceCode: dc, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED, Subject: sp(sub)}))
		}, func(m map[string]string) string {
			if m[ku] != devPending.String()+"/" {
				return "error"
			}
			v := sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED.String() + "/" + sub
			m[ku], m[kd] = v, v
			return "ok"
		}, []string{ku, kd}})
	}
	if strings.Contains(views, "u") {
		out = append(out, sop{"getByUserCode(" + uc + ")", func(s any) string { return show(s.(storage.DeviceCodeSession).GetByUserCode(bg, iss, uc)) }, refGet(ku), nil})
	}
	if strings.Contains(views, "d") {
		out = append(out, sop{"getByDeviceCode(" + uc + ")", func(s any) string { return show(s.(storage.DeviceCodeSession).GetByDeviceCode(bg, iss, dc)) }, refGet(kd), nil})
	}
	return out
}

type call struct {
	op       sop
	res      string
	inv, ret int
}

// linearizable: some order of the calls, compatible with their real-time order, gives
// the observed results on a plain map.
func linearizable(init map[string]string, calls []call) bool {
	n := len(calls)
	var rec func(done uint, m map[string]string) bool
	rec = func(done uint, m map[string]string) bool {
		if done == 1<<n-1 {
			return true
		}
		for i := range calls {
			if done&(1<<i) != 0 {
				continue
			}
			first := true
			for j := range calls {
				if done&(1<<j) == 0 && j != i && calls[j].ret < calls[i].inv {
					first = false
				}
			}
			if !first {
				continue
			}
			m2 := map[string]string{}
			for k, v := range m {
				m2[k] = v
			}
			if calls[i].op.ref(m2) == calls[i].res && rec(done|1<<i, m2) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

// called and returned record a call: threads share the clock of the record.
//
//go:norace
func called(clock *int, k *call, o sop) {
	*clock++
	*k = call{op: o, inv: *clock}
}

//go:norace
func returned(clock *int, k *call, r string) {
	*clock++
	k.res, k.ret = r, *clock
}

func c25(c *x.Ctx) {
	stores := map[string]func() any{
		"codes":  func() any { return inmemory.AuthorizationCodeSessions() },
		"pars":   func() any { return inmemory.AuthorizationRequests() },
		"proofs": func() any { return inmemory.DPoPProofs() },
		"tokens": func() any { return inmemory.Tokens() },
		"devs":   func() any { return inmemory.DeviceCodeSessions() },
	}
	ttl := map[string]time.Duration{"codes": time.Minute, "pars": time.Minute, "proofs": time.Minute, "devs": 2 * time.Minute}
	menus := map[string][]sop{}
	for _, iss := range []string{issA, issB} {
		menus["codes"] = append(menus["codes"], codeOps(iss, "k1")...)
		menus["pars"] = append(menus["pars"], parOps(iss, "k1")...)
		menus["tokens"] = append(menus["tokens"], tokOps(iss, "t1", "iv")...)
		menus["devs"] = append(menus["devs"], devOps(iss, "UC", "ud")...)
	}
	menus["codes"] = append(menus["codes"], codeOps(issA, "k2")[1:]...)
	menus["pars"] = append(menus["pars"], parOps(issA, "k2")[1:]...)
	menus["tokens"] = append(menus["tokens"], tokOps(issA, "t2", "v")...)
	menus["proofs"] = append(append(proofOps("p1"), proofOps("p2")...), proofOps("P1")...)
	names := []string{"codes", "devs", "pars", "proofs", "tokens"}
	depth := c.Q(4, 5)
	c.Bound("history depth", fmt.Sprint(depth))
	for _, name := range names {
		name := name
		c.Histories(name, func(h *x.H) string {
			s := stores[name]()
			m := map[string]string{}
			exp := map[string]time.Time{}
			var log []string
			for d := 0; d < depth; d++ {
				ops := menus[name]
				n := len(ops)
				if ttl[name] > 0 {
					n += 3
				}
				k := h.Choose(n)
				c.Step()
				if k >= len(ops) {
					step := []time.Duration{ttl[name]/2 + time.Second, ttl[name] - time.Second, ttl[name] + time.Second}[k-len(ops)]
					h.Label("+" + step.String())
					rt.Advance(step)
					for key, at := range exp {
						if rt.Now().After(at) {
							delete(m, key)
							delete(exp, key)
						}
					}
					continue
				}
				op := ops[k]
				h.Label(op.name)
				want := op.ref(m)
				if want != "error" && ttl[name] > 0 {
					for _, key := range op.ttl {
						exp[key] = rt.Now().Add(ttl[name])
					}
				}
				got := op.real(s)
				log = append(log, op.name+"="+got)
				if got != want {
					return fmt.Sprintf("%s gives %q, must be %q", op.name, got, want)
				}
				c.Outcome(name + " " + op.name[:strings.IndexByte(op.name, '(')] + "=" + got)
			}
			// what is left is what every lookup shows
			for _, op := range menus[name] {
				if strings.HasPrefix(op.name, "get") {
					c.Step()
					if got, want := op.real(s), op.ref(m); got != want {
						return fmt.Sprintf("at the end, %s gives %q, must be %q", op.name, got, want)
					}
				}
			}
			keys := []string{}
			for k, v := range m {
				keys = append(keys, k+"="+v)
			}
			sort.Strings(keys)
			c.State(name + strings.Join(keys, ";"))
			return ""
		})
	}

	// concurrency
	conc := func(name, store string, ops, init []sop, shape []int, bound int) {
		// all assignments of operations to the slots of the threads, up to the order of
		// equal threads
		slots := 0
		for _, k := range shape {
			slots += k
		}
		pick := make([]int, slots)
		var rec func(i int)
		rec = func(i int) {
			if i == slots {
				// at least one write and, by symmetry, sorted first operations
				if shape[0] == shape[1] && pick[0] > pick[shape[0]] {
					return
				}
				p := append([]int(nil), pick...)
				var nm []string
				for _, k := range p {
					nm = append(nm, ops[k].name)
				}
				reads := true
				for _, k := range p {
					if !strings.HasPrefix(ops[k].name, "get") && !strings.HasPrefix(ops[k].name, "exists") {
						reads = false
					}
				}
				if reads {
					return
				}
				key := fmt.Sprintf("%s init=%d shape=%v %s", name, len(init), shape, strings.Join(nm, "; "))
				if c.Skip() {
					c.SkipN()
					return
				}
				c.Whole(name, key, bound, func() *x.World {
					s := stores[store]()
					m := map[string]string{}
					for _, o := range init {
						if g, w := o.real(s), o.ref(m); g != w {
							panic("init: " + g)
						}
					}
					calls := make([]call, slots)
					clock := 0
					w := &x.World{}
					at := 0
					for _, k := range shape {
						from, to := at, at+k
						at = to
						w.Threads = append(w.Threads, func() {
							for i := from; i < to; i++ {
								called(&clock, &calls[i], ops[p[i]])
								r := ops[p[i]].real(s)
								returned(&clock, &calls[i], r)
							}
						})
					}
					w.Check = func() string {
						all := append([]call(nil), calls...)
						for _, o := range ops {
							if strings.HasPrefix(o.name, "get") || strings.HasPrefix(o.name, "exists") {
								clock += 2
								all = append(all, call{op: o, inv: clock - 1, ret: clock, res: o.real(s)})
							}
						}
						if !linearizable(m, all) {
							var b []string
							for _, k := range all {
								b = append(b, fmt.Sprintf("%s=%s@%d-%d", k.op.name, k.res, k.inv, k.ret))
							}
							return "not linearizable: " + strings.Join(b, ", ")
						}
						return ""
					}
					w.Outcome = func() string {
						var b []string
						for _, k := range calls {
							b = append(b, k.res)
						}
						return strings.Join(b, ",")
					}
					return w
				})
				return
			}
			for k := range ops {
				pick[i] = k
				rec(i + 1)
			}
		}
		rec(0)
	}
	b := c.Q(2, 3)
	c.Bound("preemptions", fmt.Sprint(b))
	for n := 0; n <= 1; n++ {
		co, pa, pr := codeOps(issA, "k1"), parOps(issA, "k1"), proofOps("p1")
		conc("codes", "codes", co, co[:n], []int{2, 1}, b)
		conc("pars", "pars", pa, pa[:n], []int{2, 1}, b)
		conc("proofs", "proofs", pr, pr[:n], []int{2, 2}, b)
		for _, v := range []string{"i", "v"} {
			to := tokOps(issA, "t1", v)
			conc("tokens/"+v, "tokens", to, to[:n], []int{2, 1}, b)
		}
		conc("codes", "codes", co, co[:n], []int{1, 1, 1}, c.Q(1, 2))
		conc("pars", "pars", pa, pa[:n], []int{1, 1, 1}, c.Q(1, 2))
		conc("tokens/v", "tokens", tokOps(issA, "t1", "v"), tokOps(issA, "t1", "v")[:n], []int{1, 1, 1}, c.Q(1, 2))
	}
	for _, v := range []string{"u", "d"} {
		// a code is registered once: the registration is only the initial state
		dev := devOps(issA, "UC", v)
		for n := 0; n <= 1; n++ {
			conc("devs/"+v, "devs", dev[1:], dev[:n], []int{2, 1}, b)
			conc("devs/"+v, "devs", dev[1:], dev[:n], []int{1, 1, 1}, c.Q(1, 2))
		}
	}

	// the client registry
	for _, pair := range [][2]string{{"register", "get"}, {"register", "byname"}, {"register", "register"}, {"byname", "get"}} {
		pair := pair
		c.Explore("clients "+pair[0]+"/"+pair[1], c.Q(2, 3), func() *x.World {
			s := inmemory.Clients()
			ids := make([]string, 2)
			errs := make([]error, 2)
			w := &x.World{}
			for i, p := range pair {
				i, p := i, p
				w.Threads = append(w.Threads, func() {
					switch p {
					case "register":
						ids[i], errs[i] = s.Register(bg, &clientv1.Client{ClientName: fmt.Sprintf("new-%d", i)})
					case "get":
						var k *clientv1.Client
						if k, errs[i] = s.Get(bg, "public-client"); errs[i] == nil && k.ClientName != "cli-public-client" {
							errs[i] = errDown
						}
					case "byname":
						// an absent name: every client is looked at, in any order
						if k, err := s.GetByName(bg, "nobody"); err != storage.ErrNotFound || k != nil {
							errs[i] = errDown
						}
					}
				})
			}
			w.Check = func() string {
				for i, p := range pair {
					if errs[i] != nil {
						return fmt.Sprintf("%s: %v", p, errs[i])
					}
					if p == "register" {
						k, err := s.Get(bg, ids[i])
						if err != nil || k.ClientName != fmt.Sprintf("new-%d", i) || k.ClientId != ids[i] {
							return fmt.Sprintf("registered client lost: %v %v", k, err)
						}
						if k, err = s.GetByName(bg, fmt.Sprintf("NEW-%d", i)); err != nil || k.ClientId != ids[i] {
							return fmt.Sprintf("registered client not found by name: %v", err)
						}
					}
				}
				if pair[1] == "register" && ids[0] == ids[1] {
					return "two clients share an id"
				}
				return ""
			}
			return w
		})
	}
	clientNames := []string{"", "new", "NEW ", " new", "public-client", "cli-public-client\t", "n\u0065\u0301w", "caf\u00e9", "CAF\u00c9", "\u017fmall"}
	cd := c.Q(3, 4)
	c.Bound("client registry depth", fmt.Sprint(cd))
	c.Histories("clients", func(h *x.H) string {
		s := inmemory.Clients()
		before := map[string]string{}
		for _, id := range []string{"public-client", "attestation-client", "6779ef20e75817b79602"} {
			k, err := s.Get(bg, id)
			if err != nil {
				return err.Error()
			}
			before[id] = k.ClientName
		}
		names := map[string]string{} // of every client known here
		for id, n := range before {
			names[id] = n
		}
		last := ""
		for i := 0; i < cd; i++ {
			name := clientNames[h.Choose(len(clientNames))]
			id := []string{"", "public-client", last}[h.Choose(3)]
			h.Label(fmt.Sprintf("register %q as %q", name, id))
			c.Step()
			got, err := s.Register(bg, &clientv1.Client{ClientId: id, ClientName: name})
			if err != nil {
				return err.Error()
			}
			if got == "" || names[got] != "" || got == last {
				return fmt.Sprintf("registered under the identifier %q of another client", got)
			}
			last, names[got] = got, name
			for id, n := range names {
				if k, err := s.Get(bg, id); err != nil || k.ClientName != n || k.ClientId != id {
					return fmt.Sprintf("client %q is %v (%v), must be named %q", id, k, err, n)
				}
			}
			for _, n := range clientNames {
				some := false
				for _, m := range names {
					some = some || strings.EqualFold(m, n)
				}
				k, err := s.GetByName(bg, n)
				if (err == nil) != some || err == nil && !strings.EqualFold(k.ClientName, n) || err != nil && err != storage.ErrNotFound {
					return fmt.Sprintf("the client of name %q is %v (%v), some: %v", n, k, err, some)
				}
			}
			c.State(fmt.Sprint(len(names), name))
		}
		return ""
	})
	c.Case("clients: unknown", func() string {
		s := inmemory.Clients()
		for _, id := range []string{"", "x", "PUBLIC-CLIENT", "public-client "} {
			if k, err := s.Get(bg, id); err != storage.ErrNotFound || k != nil {
				return fmt.Sprintf("client %q: %v %v", id, k, err)
			}
			if k, err := s.GetByName(bg, id); err != storage.ErrNotFound || k != nil {
				return fmt.Sprintf("client by name %q: %v %v", id, k, err)
			}
		}
		return ""
	})
	c.Case("resources", func() string {
		s := inmemory.Resources()
		for _, u := range []string{"", "urn:example:backend-api ", "URN:example:backend-api", "urn:example:backend-ap", "https://backend.example.com/api"} {
			if r, err := s.GetByURI(bg, u); err != storage.ErrNotFound || r != nil {
				return fmt.Sprintf("resource %q: %v %v", u, r, err)
			}
		}
		for _, u := range []string{"urn:example:backend-api", "urn:example:cooperation-context"} {
			if r, err := s.GetByURI(bg, u); err != nil || r.Urn != u {
				return fmt.Sprintf("resource %q: %v %v", u, r, err)
			}
		}
		return ""
	})
	storePopulations(c)
	textKeys(c)
}
