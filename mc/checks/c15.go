package checks

import (
	"context"
	"fmt"
	"time"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C15", Run: c15,
		Rule: "every interleaving (within the preemption bound) of concurrent verifications sharing one proof storage; all histories of verifications, storage operations and clock moves; every pair of proofs"})
}

func mkProof(key any, jti string, iat int64, htm, htu string) string {
	return craft("ES256", key, map[string]any{"alg": "ES256", "typ": "dpop+jwt", "jwk": jwkMap(key, false, nil)},
		map[string]any{"htm": htm, "htu": htu, "jti": jti, "iat": iat})
}

func c15(c *x.Ctx) {
	algs := []jose.SignatureAlgorithm{jose.ES256}
	const u = "https://rs.example/r"
	ver := func(st storage.DPoP) dpop.Verifier { return dpop.DefaultVerifier(st, jwt.EmbeddedKeyVerifier(algs)) }
	now := rt.Base.Unix()
	p1, p2 := mkProof(keyA(), "jti-1", now, "GET", u), mkProof(keyA(), "jti-2", now, "GET", u)
	p1b := mkProof(keyA(), "jti-1", now+1, "GET", u) // another proof with the same jti

	type op struct{ proof string }
	concurrent := func(name string, bound int, shared bool, proofs ...string) {
		c.Explore(name, bound, func() *x.World {
			st := inmemory.DPoPProofs()
			v := ver(st)
			res := make([]error, len(proofs))
			w := &x.World{}
			for i, p := range proofs {
				i, p := i, p
				w.Threads = append(w.Threads, func() {
					vv := v
					if !shared {
						vv = ver(st) // e.g. one verifier per endpoint
					}
					_, res[i] = vv.Verify(bg, "GET", u, p)
				})
			}
			w.Check = func() string {
				ok := map[string]int{}
				for i, p := range proofs {
					if p == p1b {
						p = p1
					}
					if res[i] == nil {
						ok[p]++
					}
				}
				for p, n := range ok {
					if n > 1 {
						return fmt.Sprintf("proof accepted %d times (%.12s)", n, p)
					}
				}
				for _, p := range proofs {
					if p == p1b {
						p = p1
					}
					if ok[p] == 0 {
						return "no presentation of a fresh proof was accepted"
					}
				}
				return ""
			}
			w.Outcome = func() string {
				s := ""
				for _, e := range res {
					if e == nil {
						s += "+"
					} else {
						s += "-"
					}
				}
				return s
			}
			return w
		})
	}
	b := c.Q(2, 4)
	concurrent("same proof twice", b, true, p1, p1)
	concurrent("same proof twice, two verifiers", b, false, p1, p1)
	concurrent("same jti in two proofs", b, true, p1, p1b)
	concurrent("same proof three times", c.Q(1, 3), true, p1, p1, p1)
	concurrent("two proofs", b, true, p1, p2)
	concurrent("two proofs, one repeated", c.Q(1, 2), true, p1, p2, p1)

	// histories
	depth := c.Q(5, 6)
	c.Bound("history depth", fmt.Sprint(depth))
	c.Histories("replay", func(h *x.H) string {
		st := inmemory.DPoPProofs()
		v, v2 := ver(st), ver(st)
		used := map[string]bool{}
		iats := map[string]int64{}
		// what the proofs under test are, made lazily so that iat follows the clock
		mk := func(jti string, key any) string { return mkProof(key, jti, rt.Now().Unix(), "GET", u) }
		var held []struct{ jti, raw string }
		for d := 0; d < depth; d++ {
			n := 4 + len(held) + 1
			ch := h.Choose(n)
			c.Step()
			switch {
			case ch == 0 || ch == 1:
				jti := []string{"a", "b"}[ch]
				h.Label("new proof jti=" + jti)
				raw := mk(jti, keyA())
				held = append(held, struct{ jti, raw string }{jti, raw})
				iats[raw] = rt.Now().Unix()
			case ch == 2:
				h.Label("+10s")
				rt.Advance(10 * time.Second)
			case ch == 3:
				h.Label("+29s")
				rt.Advance(29 * time.Second)
			case ch < 4+len(held):
				p := held[ch-4]
				h.Label(fmt.Sprintf("verify #%d", ch-4))
				vv := v
				if d%2 == 1 {
					vv = v2
				}
				_, err := vv.Verify(bg, "GET", u, p.raw)
				age := rt.Now().Unix() - iats[p.raw]
				if err == nil && used[p.raw] {
					return "a used proof was accepted again"
				}
				if err == nil && age > 16 {
					return fmt.Sprintf("accepted with age %ds", age)
				}
				if err != nil && age < 15 && !used["jti:"+p.jti] {
					return "a fresh proof was rejected: " + err.Error()
				}
				if err == nil {
					used[p.raw], used["jti:"+p.jti] = true, true
				}
			default:
				h.Label("verify for another url")
				if len(held) == 0 {
					continue
				}
				if _, err := v.Verify(bg, "GET", u+"x", held[len(held)-1].raw); err == nil {
					return "accepted for another url"
				}
			}
			c.State(fmt.Sprint(len(held), used, rt.Now().Unix()-now))
		}
		return ""
	})
	// a proof from the future stays registered for as long as it is acceptable
	for iat := int64(-16); iat <= 16; iat++ {
		for first := int64(0); first <= 16; first += 4 {
			for second := first; second <= 40; second++ {
				iat, first, second := iat, first, second
				c.Case(fmt.Sprintf("iat%+d presented at +%d and +%d", iat, first, second), func() string {
					st := inmemory.DPoPProofs()
					p := mkProof(keyA(), "j", now+iat, "GET", u)
					rt.SetNow(rt.Base.Add(time.Duration(first) * time.Second))
					_, e1 := ver(st).Verify(bg, "GET", u, p)
					rt.SetNow(rt.Base.Add(time.Duration(second) * time.Second))
					_, e2 := ver(st).Verify(bg, "GET", u, p)
					c.Step()
					c.Step()
					c.Outcome(fmt.Sprint(e1 == nil, e2 == nil))
					if e1 == nil && e2 == nil {
						return "accepted twice"
					}
					return ""
				})
			}
		}
	}
	// jti values are compared exactly
	jtis := []string{"a", "A", "a ", " a", "aa", "á", "a\x00", "a\x00b", "1", "01", "urn:a", "a/b", "a%2Fb", "0123456789abcdef", "0123456789abcdeF"}
	for _, j1 := range jtis {
		for _, j2 := range jtis {
			for _, k := range []string{"same key", "other key"} {
				j1, j2, k := j1, j2, k
				c.Case(fmt.Sprintf("jti %q then %q (%s)", j1, j2, k), func() string {
					st := inmemory.DPoPProofs()
					key2 := keyA()
					if k == "other key" {
						key2 = keyB()
					}
					_, e1 := ver(st).Verify(bg, "GET", u, mkProof(keyA(), j1, now, "GET", u))
					_, e2 := ver(st).Verify(bg, "GET", u, mkProof(key2, j2, now, "GET", u))
					c.Step()
					if e1 != nil {
						return e1.Error()
					}
					if j1 != j2 && e2 != nil {
						return "a different jti was refused: " + e2.Error()
					}
					if j1 == j2 && k == "same key" && e2 == nil {
						return "replayed jti accepted"
					}
					return ""
				})
			}
		}
	}
	// the storage contract itself
	c.Histories("storage", func(h *x.H) string {
		st := inmemory.DPoPProofs()
		reg := map[string]time.Time{}
		for d := 0; d < depth; d++ {
			ch := h.Choose(7)
			id := []string{"x", "y"}[ch%2]
			c.Step()
			switch {
			case ch == 6:
				h.Label("+20s")
				rt.Advance(20 * time.Second)
			case ch < 2:
				h.Label("register " + id)
				err := st.Register(context.Background(), id)
				t, was := reg[id]
				age := rt.Now().Sub(t)
				if was && age < 30*time.Second && err == nil {
					return "registered twice"
				}
				if !was && err != nil {
					return "registration refused: " + err.Error()
				}
				if err == nil {
					reg[id] = rt.Now()
				}
			case ch < 4:
				h.Label("exists " + id)
				ok, err := st.Exists(context.Background(), id)
				t, was := reg[id]
				if err != nil {
					return err.Error()
				}
				if was && rt.Now().Sub(t) < 30*time.Second && !ok {
					return "a registered proof is not found"
				}
				if !was && ok {
					return "an unknown proof is found"
				}
			case ch < 6:
				h.Label("delete " + id)
				if err := st.Delete(context.Background(), id); err != nil {
					return err.Error()
				}
				delete(reg, id)
			}
		}
		return ""
	})
	manyProofs(c)
}
