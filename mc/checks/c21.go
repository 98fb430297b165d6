package checks

import (
	"bytes"
	"crypto/hkdf"
	"crypto/hmac"
	"crypto/sha256"
	"errors"
	"fmt"
	"math/big"
	"regexp"
	"strings"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/token/verifiable"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C21", Run: c21,
		Rule: "every UUID pattern x prefix x secret generated, verified, extracted; every position of a token replaced by every character, deleted, duplicated, inserted, swapped with every other; every split of prefixes; values built by an independent implementation of the format; token types"})
}

func b62(b []byte, n int) string {
	s := new(big.Int).SetBytes(b).Text(62)
	for len(s) < n {
		s = "0" + s
	}
	return s
}

// c21mint is an independent implementation of the documented token format.
func c21mint(prefix string, u [16]byte, nonce [12]byte, secret []byte) string {
	k, err := hkdf.Key(sha256.New, secret, nonce[:], "solid-uuid-wrapper-mac-v1", 32)
	if err != nil {
		panic(err)
	}
	if prefix != "" {
		prefix += "_"
	}
	m := hmac.New(sha256.New, k)
	m.Write([]byte("solid-uuid-protected-token-v1" + prefix))
	m.Write(u[:])
	return prefix + b62(u[:], 22) + "_" + b62(m.Sum(nonce[:]), 59)
}

func c21(c *x.Ctx) {
	secrets := [][]byte{[]byte("0123456789abcdef0123456789abcdef"), []byte("0123456789abcdef0123456789abcdeg"), []byte("k"), bytes.Repeat([]byte{0}, 32), bytes.Repeat([]byte{255}, 64), []byte("0123456789abcdef0123456789abcdef0"),
		append(bytes.Repeat([]byte{255}, 64), 1), append(bytes.Repeat([]byte{255}, 64), 2), append(bytes.Repeat([]byte{7}, 200), 1), append(bytes.Repeat([]byte{7}, 200), 2), bytes.Repeat([]byte{7}, 128)}
	var uuids [][16]byte
	for i := 0; i < 16; i++ { // leading zero bytes exercise the padding
		for _, b := range []byte{1, 0x7f, 0x80, 0xff} {
			var u [16]byte
			u[i] = b
			uuids = append(uuids, u)
			for j := i; j < 16; j++ {
				u[j] = b
			}
			uuids = append(uuids, u)
		}
	}
	uuids = append(uuids, [16]byte{})
	prefixes := []string{"", "sldat", "a", "x-y", "0", "-", "PRE", " Trim ", strings.Repeat("p", 64)}
	norm := func(p string) string { return strings.ToLower(strings.TrimSpace(p)) }
	format := regexp.MustCompile(`^([a-z0-9-]+_)?[0-9a-zA-Z]{22}_[0-9a-zA-Z]{59,60}$`)
	for ui, u := range uuids {
		for _, p := range prefixes {
			for si, s := range secrets {
				u, p, s, si := u, p, s, si
				c.Case(fmt.Sprintf("roundtrip uuid#%d prefix=%q secret#%d", ui, p, si), func() string {
					c.Step()
					c.State(fmt.Sprint(u, norm(p), si))
					var opts []verifiable.GenerateOption
					if p != "" {
						opts = append(opts, verifiable.WithTokenPrefix(p))
					}
					g := verifiable.UUIDGenerator(verifiable.StaticUUIDSource(u), s)
					t, err := g.Generate(opts...)
					if err != nil {
						return "refused: " + err.Error()
					}
					if !format.MatchString(t) {
						return "unexpected format " + t
					}
					if p != "" && !strings.HasPrefix(t, norm(p)+"_") {
						return "prefix lost: " + t
					}
					t2, _ := g.Generate(opts...)
					if t2 == t {
						return "two generations gave the same value"
					}
					for i, o := range secrets {
						v := verifiable.UUIDVerifier(o)
						e1 := v.Verify(t)
						got, e2 := v.Extract(t)
						c.Step()
						if (e1 == nil) != (i == si) || (e2 == nil) != (i == si) {
							return fmt.Sprintf("secret #%d: verify=%v extract=%v", i, e1, e2)
						}
						if e2 == nil && !bytes.Equal(got, u[:]) {
							return fmt.Sprintf("extracted %x from a token of %x", got, u)
						}
						if e2 != nil && len(got) != 0 {
							return "content returned with an error"
						}
						if i != si && !errors.Is(e1, verifiable.ErrTokenNotAuthenticated) {
							return fmt.Sprintf("a forged token is reported as %v", e1)
						}
					}
					c.Outcome("roundtrip")
					return ""
				})
			}
		}
	}
	// every character of a prefix counts, however long the prefix is
	for _, n := range []int{1, 2, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300} {
		n := n
		c.Case(fmt.Sprintf("long prefix %d", n), func() string {
			p, u := strings.Repeat("p", n), uuids[0]
			t := c21mint(p, u, [12]byte{1, 2, 3}, secrets[0])
			v := verifiable.UUIDVerifier(secrets[0])
			if err := v.Verify(t); err != nil {
				return fmt.Sprintf("a token with a prefix of %d characters does not verify: %v", n, err)
			}
			for i := 0; i < n; i++ {
				for _, q := range []string{p[:i] + "q" + p[i+1:], p[:i] + p[i+1:], p[:i] + "q" + p[i:]} {
					c.Step()
					if q == p {
						continue
					}
					o := q + strings.TrimPrefix(t, p)
					if q == "" {
						o = strings.TrimPrefix(t, p+"_")
					}
					if v.Verify(o) == nil {
						return fmt.Sprintf("prefix of %d characters changed at %d and the token still verifies", n, i)
					}
				}
			}
			return ""
		})
	}
	// refused prefixes
	for _, p := range []string{"a_b", "_", "a b", "é", "a.b", "a/b", "A_B", "a\x00", "a\n b", "x!", "~"} {
		p := p
		c.Case(fmt.Sprintf("forbidden prefix %q", p), func() string {
			c.Step()
			t, err := verifiable.UUIDGenerator(verifiable.UUIDv4Source(), secrets[0]).Generate(verifiable.WithTokenPrefix(p))
			if err == nil || t != "" {
				return fmt.Sprintf("a forbidden prefix is accepted: %q %v", t, err)
			}
			return ""
		})
	}
	c.Case("failing source", func() string {
		t, err := verifiable.UUIDGenerator(func() ([16]byte, error) { return [16]byte{1}, errDown }, secrets[0]).Generate()
		if err == nil || t != "" {
			return fmt.Sprintf("a failing source gives %q %v", t, err)
		}
		return ""
	})
	for v, src := range []verifiable.UUIDGeneratorFunc{verifiable.UUIDv4Source(), verifiable.UUIDv7Source()} {
		v, src := v, src
		c.Case(fmt.Sprintf("source %d", v), func() string {
			seen := map[string]bool{}
			for i := 0; i < 64; i++ {
				t, err := verifiable.UUIDGenerator(src, secrets[0]).Generate()
				if err != nil {
					return err.Error()
				}
				u, err := verifiable.UUIDVerifier(secrets[0]).Extract(t)
				if err != nil {
					return err.Error()
				}
				if len(u) != 16 || u[6]>>4 != []byte{4, 7}[v] || u[8]>>6 != 2 {
					return fmt.Sprintf("%x is not a version %d UUID", u, []byte{4, 7}[v])
				}
				if seen[string(u)] {
					return "UUID repeated"
				}
				seen[string(u)] = true
				c.Step()
			}
			return ""
		})
	}
	// acceptance of values made by the independent implementation; nonces with leading
	// zeroes exercise the padding of the second part
	nonces := [][12]byte{{}, {0, 0, 1}, {0: 1}, {0: 0x7f}, {0: 255, 1: 255, 2: 255, 3: 255, 4: 255, 5: 255, 6: 255, 7: 255, 8: 255, 9: 255, 10: 255, 11: 255}, {11: 1}, {0: 5, 5: 9}}
	for ni, n := range nonces {
		for ui := 0; ui < len(uuids); ui += 3 {
			for _, p := range []string{"", "sldat"} {
				n, u, p := n, uuids[ui], p
				c.Case(fmt.Sprintf("minted nonce#%d uuid#%d prefix=%q", ni, ui, p), func() string {
					t := c21mint(p, u, n, secrets[0])
					got, err := verifiable.UUIDVerifier(secrets[0]).Extract(t)
					c.Step()
					if err != nil || !bytes.Equal(got, u[:]) {
						return fmt.Sprintf("%s: %x %v", t, got, err)
					}
					// the same value written with other padding is another, invalid token
					i := strings.LastIndexByte(t, '_')
					for _, alt := range []string{t[:i+1] + "0" + t[i+1:], t[:i] + "0" + t[i:], t[:i+1] + "00" + t[i+1:], strings.Replace(t, "_0", "_", 1), strings.TrimLeft(t, "0"), "0" + t, "_" + t, t + "_", t + "\n", " " + t, t + " ", "+" + t, "-" + t} {
						if alt == t {
							continue
						}
						if err := verifiable.UUIDVerifier(secrets[0]).Verify(alt); err == nil {
							return fmt.Sprintf("%q is accepted, like %q", alt, t)
						}
						c.Step()
					}
					return ""
				})
			}
		}
	}
	// alterations of a valid token
	alphabet := "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_-+/=. \x00\n\xc3"
	for _, p := range []string{"", "sldat"} {
		t := c21mint(p, [16]byte{0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0x4d, 0xef, 0x81, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef}, [12]byte{9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 1, 2}, secrets[0])
		vrf := verifiable.UUIDVerifier(secrets[0])
		try := func(what, s string) string {
			if s == t {
				return ""
			}
			c.Step()
			u, err := vrf.Extract(s)
			if err == nil || vrf.Verify(s) == nil {
				return fmt.Sprintf("%s: %q is accepted", what, s)
			}
			if len(u) != 0 {
				return "content returned with an error"
			}
			return ""
		}
		for i := 0; i <= len(t); i++ {
			i := i
			c.Case(fmt.Sprintf("altered prefix=%q at %d", p, i), func() string {
				for k := 0; k < len(alphabet); k++ {
					a := alphabet[k : k+1]
					if i < len(t) {
						if m := try("replaced", t[:i]+a+t[i+1:]); m != "" {
							return m
						}
					}
					if m := try("inserted", t[:i]+a+t[i:]); m != "" {
						return m
					}
				}
				if m := try("truncated", t[:i]); m != "" {
					return m
				}
				if m := try("beheaded", t[i:]); i > 0 && m != "" {
					return m
				}
				if i < len(t) {
					if m := try("deleted", t[:i]+t[i+1:]); m != "" {
						return m
					}
					if m := try("doubled", t[:i]+t[i:i+1]+t[i:]); m != "" {
						return m
					}
					for j := i + 1; j < len(t); j++ {
						b := []byte(t)
						b[i], b[j] = b[j], b[i]
						if m := try("swapped", string(b)); m != "" {
							return m
						}
					}
				}
				return ""
			})
		}
		c.Case(fmt.Sprintf("prefix of %q changed", p), func() string {
			body := strings.TrimPrefix(t, "sldat_")
			for _, q := range []string{"", "sldrt_", "sldpt_", "SLDAT_", "sldat__", "_sldat_", "sldat_sldat_", "sldat", " sldat_", "x_y_", "sldat\x00_"} {
				if m := try("prefix", q+body); m != "" {
					return m
				}
			}
			for _, s := range []string{"", "_", "__", "___", "a_b", "a_b_c", "a_b_c_d", strings.Repeat("z", 22) + "_" + strings.Repeat("z", 59), strings.Repeat("z", 22) + "_" + strings.Repeat("z", 60), strings.Repeat("Z", 22) + "_" + strings.Repeat("Z", 60), strings.Repeat("0", 22) + "_" + strings.Repeat("0", 59), strings.Repeat("é", 11) + "_" + strings.Repeat("0", 59), strings.Repeat("9", 100000)} {
				if m := try("made up", s); m != "" {
					return m
				}
			}
			return ""
		})
	}
	// parts of different tokens do not combine
	c.Case("spliced", func() string {
		vrf := verifiable.UUIDVerifier(secrets[0])
		for i := range uuids {
			for j := range uuids {
				if uuids[i] == uuids[j] {
					continue
				}
				a, b := c21mint("sldat", uuids[i], nonces[6], secrets[0]), c21mint("sldat", uuids[j], nonces[6], secrets[0])
				c.Step()
				if s := a[:28] + b[28:]; vrf.Verify(s) == nil {
					return "accepted " + s
				}
			}
		}
		return ""
	})
	// token type decides the prefix
	for _, tt := range []tokenv1.TokenType{0, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, tokenv1.TokenType_TOKEN_TYPE_PHANTOM_TOKEN, 99, -1} {
		tt := tt
		c.Case(fmt.Sprintf("token type %d", tt), func() string {
			c.Step()
			u := uuids[5]
			g := verifiable.Token(verifiable.StaticUUIDSource(u), secrets[0])
			t, err := g.Generate(bg, &tokenv1.Token{TokenType: tt})
			if err != nil {
				return err.Error()
			}
			want := map[tokenv1.TokenType]string{1: "", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN: "sldat_", tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN: "sldrt_", tokenv1.TokenType_TOKEN_TYPE_PHANTOM_TOKEN: "sldpt_"}[tt]
			if want == "" && strings.Count(t, "_") != 1 || !strings.HasPrefix(t, want) {
				return fmt.Sprintf("token of type %s is %q", tt, t)
			}
			got, err := verifiable.UUIDVerifier(secrets[0]).Extract(t)
			if err != nil || !bytes.Equal(got, u[:]) {
				return fmt.Sprintf("%q: %v", t, err)
			}
			// a token of one type is not a token of another type
			if want != "" {
				for _, o := range []string{"sldat_", "sldrt_", "sldpt_", ""} {
					if o != want && verifiable.UUIDVerifier(secrets[0]).Verify(o+t[6:]) == nil {
						return "the type prefix can be replaced by " + o
					}
				}
			}
			return ""
		})
	}
	c21instance(c)
}
