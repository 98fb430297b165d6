package checks

import (
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"regexp"
	"strings"

	"zntr.io/solid/sdk/pkce"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C23", Run: c23,
		Rule: "every verifier length x character class against its own challenge; every single-character alteration of verifier and challenge; full product of verifiers x challenges; generated pairs"})
}

func c23(c *x.Ctx) {
	ch := func(v string) string {
		h := sha256.Sum256([]byte(v))
		return base64.RawURLEncoding.EncodeToString(h[:])
	}
	valid := func(challenge, verifier string, want bool) string {
		ok, err := pkce.Validate(challenge, verifier)
		c.Step()
		if ok && err != nil {
			return "valid and an error"
		}
		if ok != want {
			return fmt.Sprintf("Validate(%q, %q) is %v (%v), must be %v", challenge, verifier, ok, err, want)
		}
		c.Outcome(fmt.Sprintf("valid=%v err=%v", ok, err != nil))
		return ""
	}
	fills := []string{"a", "Z", "0", "-", "~", ".", "_", "é", " ", "\x00", "\xff"}
	for n := 0; n <= 140; n++ {
		for _, f := range fills {
			n, f := n, f
			c.Case(fmt.Sprintf("length %d of %q", n, f), func() string {
				v := strings.Repeat(f, n)
				c.State(v)
				if m := valid(ch(v), v, n > 0); m != "" {
					return m
				}
				if m := valid("", v, false); m != "" {
					return m
				}
				if m := valid(v, ch(v), false); m != "" { // swapped
					return m
				}
				if m := valid(v, v, false); m != "" { // plain
					return m
				}
				return valid(ch(v), ch(v), false)
			})
		}
	}
	alphabet := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~ =+/%\x00\n"
	base := "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk" // RFC 7636 appendix B
	c.Case("RFC 7636 appendix B", func() string { return valid("E9Melhoa2OwvFrEMTJguCHaoeK1t8URWbuGJSstw-cM", base, true) })
	for i := 0; i <= len(base); i++ {
		i := i
		c.Case(fmt.Sprintf("altered at %d", i), func() string {
			good := ch(base)
			for k := 0; k < len(alphabet); k++ {
				a := alphabet[k : k+1]
				if i < len(base) && base[i:i+1] != a {
					if m := valid(good, base[:i]+a+base[i+1:], false); m != "" {
						return m
					}
				}
				if m := valid(good, base[:i]+a+base[i:], false); m != "" {
					return m
				}
				// the last character of the challenge has two bits which do not count
				if i < len(good)-1 && good[i:i+1] != a {
					if m := valid(good[:i]+a+good[i+1:], base, false); m != "" {
						return m
					}
				}
				if a != "\n" {
					if m := valid(good[:i]+a+good[i:], base, false); m != "" {
						return m
					}
				}
			}
			if m := valid(good, base[:i], i == len(base)); m != "" {
				return m
			}
			if i < len(good) {
				return valid(good[:i], base, false)
			}
			return ""
		})
	}
	vs := []string{base, base + "a", strings.ToUpper(base), strings.ToLower(base), " " + base, base + " ", base + "\n", base + "=", strings.Repeat("a", 43), strings.Repeat("a", 128), "short", ""}
	chs := []string{ch(base), ch(base) + "=", strings.ToLower(ch(base)), base, "plain", "", ch(""), ch(base + "a"), fmt.Sprintf("%x", sha256.Sum256([]byte(base))), ch(strings.Repeat("a", 43)), strings.Repeat("A", 43), "!!!", ch(ch(base))}
	for _, v := range vs {
		for _, k := range chs {
			v, k := v, k
			c.Case(fmt.Sprintf("pair %q %q", k, v), func() string { return valid(k, v, v != "" && k == ch(v)) })
		}
	}
	// generated pairs
	for i := 0; i < c.Q(64, 512); i++ {
		c.Case(fmt.Sprintf("generated #%d", i), func() string {
			seen := map[string]bool{}
			for j := 0; j < 8; j++ {
				v, k, err := pkce.CodeVerifier()
				c.Step()
				if err != nil {
					return err.Error()
				}
				if !regexp.MustCompile(`^[A-Za-z0-9._~-]{43,128}$`).MatchString(v) {
					return "not a code verifier: " + v
				}
				if k != ch(v) {
					return fmt.Sprintf("challenge %q is not the S256 of %q", k, v)
				}
				if seen[v] {
					return "verifier repeated"
				}
				seen[v] = true
				if m := valid(k, v, true); m != "" {
					return m
				}
			}
			return ""
		})
	}
	c23instance(c)
}
