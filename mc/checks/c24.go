package checks

import (
	"fmt"
	"regexp"
	"strings"

	"zntr.io/solid/sdk/generator"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C24", Run: c24,
		Rule: "every generator for every issuer: format, distinctness, acceptance by its own validator; validators on every length and on every single-character alteration"})
}

func c24(c *x.Ctx) {
	type gen struct {
		name    string
		gen     func(iss string) (string, error)
		val     func(iss, in string) error
		format  *regexp.Regexp
		fixed   string // the positions which are not drawn
		symbols int
	}
	ac, dc, ru := generator.DefaultAuthorizationCode(), generator.DefaultDeviceCode(), generator.DefaultRequestURI()
	al, nu, ci := generator.DefaultDeviceUserCode(), generator.DefaultNumDeviceUserCode(), generator.DefaultClientID()
	gens := []gen{
		{"authorization code", func(i string) (string, error) { return ac.Generate(bg, i) }, func(i, s string) error { return ac.Validate(bg, i, s) }, regexp.MustCompile(`^[A-Za-z0-9]{32}$`), "", 62},
		{"device code", func(i string) (string, error) { return dc.Generate(bg, i) }, func(i, s string) error { return dc.Validate(bg, i, s) }, regexp.MustCompile(`^[A-Za-z0-9]{32}$`), "", 62},
		{"request uri", func(i string) (string, error) { return ru.Generate(bg, i) }, func(i, s string) error { return ru.Validate(bg, i, s) }, regexp.MustCompile(`^urn:solid:[A-Za-z0-9]{32}$`), "urn:solid:" + strings.Repeat("*", 32), 63},
		{"user code", func(i string) (string, error) { return al.Generate(bg, i) }, nil, regexp.MustCompile(`^[BCDFGHJKLMNPQRSTVWXZ]{4}-[BCDFGHJKLMNPQRSTVWXZ]{4}$`), "****-****", 21},
		{"numeric user code", func(i string) (string, error) { return nu.Generate(bg, i) }, nil, regexp.MustCompile(`^[0-9]{3}-[0-9]{3}-[0-9]{3}$`), "***-***-***", 11},
		{"client id", func(string) (string, error) { return ci.Generate(bg) }, nil, regexp.MustCompile(`^[A-Za-z0-9]{16}$`), "", 62},
	}
	issuers := []string{"", issA, issB, "not a uri", strings.Repeat("i", 1000), "\x00"}
	for _, g := range gens {
		g := g
		for _, iss := range issuers {
			for batch := 0; batch < c.Q(4, 32); batch++ {
				iss := iss
				c.Case(fmt.Sprintf("%s for %q batch %d", g.name, iss, batch), func() string {
					seen := map[string]bool{}
					at, all := map[int]map[byte]bool{}, map[byte]bool{}
					for i := 0; i < 200; i++ {
						s, err := g.gen(iss)
						c.Step()
						if err != nil {
							return err.Error()
						}
						if !g.format.MatchString(s) {
							return fmt.Sprintf("%q is not %s", s, g.format)
						}
						if seen[s] && !strings.Contains(g.name, "numeric") {
							return "value repeated: " + s
						}
						seen[s] = true
						for i := range s {
							if at[i] == nil {
								at[i] = map[byte]bool{}
							}
							at[i][s[i]], all[s[i]] = true, true
						}
						if g.val != nil {
							for _, at := range []string{iss, issA} {
								if err := g.val(at, s); err != nil {
									return fmt.Sprintf("its own validator refuses %q: %v", s, err)
								}
							}
						}
					}
					if len(seen) < 190 {
						return "the values are not random"
					}
					// every position is drawn, from the whole alphabet: the probability that a
					// correct generator fails here is below 1e-30
					for i, s := range at {
						if fixed := g.fixed != "" && g.fixed[i] != '*'; fixed != (len(s) == 1) || !fixed && len(s) < 5 {
							return fmt.Sprintf("character %d takes %d values", i, len(s))
						}
					}
					if len(all) < g.symbols {
						return fmt.Sprintf("%d characters of the alphabet are used, must be %d", len(all), g.symbols)
					}
					return ""
				})
			}
		}
		if g.val == nil {
			continue
		}
		valid := map[string]string{"authorization code": strings.Repeat("aB1", 11)[:32], "device code": strings.Repeat("aB1", 11)[:32], "request uri": "urn:solid:" + strings.Repeat("aB1", 11)[:32]}[g.name]
		check := func(s string, want, dont bool) string {
			err := g.val(issA, s)
			c.Step()
			c.Outcome(fmt.Sprintf("%s accepted=%v", g.name, err == nil))
			if !dont && (err == nil) != want {
				return fmt.Sprintf("%s %q: %v, must be accepted=%v", g.name, s, err, want)
			}
			return ""
		}
		for n := 0; n <= 2*len(valid); n++ {
			n := n
			c.Case(fmt.Sprintf("%s length %d", g.name, n), func() string {
				c.State(fmt.Sprint(g.name, n))
				s := (valid + valid)[:n]
				if m := check(s, n == len(valid), false); m != "" {
					return m
				}
				if g.name == "request uri" {
					return check("urn:solid:"+strings.Repeat("a", n), n == 32, false)
				}
				return check(strings.Repeat("a", n), n == 32, false)
			})
		}
		// the length counts bytes: neither characters nor columns
		c.Case(g.name+" wide", func() string {
			prefix, n := "", 32
			if g.name == "request uri" {
				prefix = "urn:solid:"
			}
			for _, ch := range []string{"\u00e9", "\u212a", "\U0001d7d9", "\u0301", "\xff", "e\u0301", "\uff21"} {
				for k := 1; k <= n; k++ {
					for _, v := range []string{prefix + strings.Repeat(ch, k) + strings.Repeat("a", n-k), prefix + strings.Repeat("a", n-k) + strings.Repeat(ch, k)} {
						if m := check(v, false, len(v) == len(prefix)+n); m != "" {
							return m
						}
					}
				}
			}
			return ""
		})
		if g.name != "request uri" {
			continue
		}
		for i := 0; i < len(valid); i++ {
			i := i
			c.Case(fmt.Sprintf("request uri altered at %d", i), func() string {
				for b := 0; b < 256; b++ {
					s := valid[:i] + string([]byte{byte(b)}) + valid[i+1:]
					t := strings.TrimSpace(s)
					if m := check(s, g.format.MatchString(t), false); m != "" {
						return m
					}
					if m := check(valid[:i]+string([]byte{byte(b)})+valid[i:], false, (i == 0) && strings.TrimSpace(string([]byte{byte(b)})) == ""); m != "" {
						return m
					}
				}
				return ""
			})
		}
		c.Case("request uri forms", func() string {
			for _, s := range []string{"URN:solid:" + valid[10:], "urn:SOLID:" + valid[10:], "https://as/" + valid, valid + "\n" + valid, valid + "/x", "xurn:solid:" + valid[10:], "urn:ietf:params:oauth:request_uri:" + valid[10:], valid + "#f", valid + "?q"} {
				if m := check(s, false, false); m != "" {
					return m
				}
			}
			return ""
		})
	}
}
