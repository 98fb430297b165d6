package checks

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"strings"

	"golang.org/x/crypto/blake2b"

	"zntr.io/solid/sdk/pairwise"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C22", Run: c22,
		Rule: "full product of salts x sectors x subjects, every pair of different inputs compared; all salt lengths; all subject spellings; call histories on shared encoders"})
}

func c22(c *x.Ctx) {
	var salts [][]byte
	for n := 0; n <= 64; n++ {
		salts = append(salts, bytes.Repeat([]byte{'s'}, n))
	}
	for _, n := range []int{65, 100, 1000} {
		salts = append(salts, bytes.Repeat([]byte{'s'}, n))
	}
	salts = append(salts, nil, []byte("tttttttttttttttt"), []byte("ssssssssssssssst"), bytes.Repeat([]byte{0}, 16), bytes.Repeat([]byte{0}, 32), []byte("                "))
	// sectors and subjects: letters never shared, so that no two pairs concatenate to the
	// same string (the ambiguity of concatenation is out of scope)
	sectors := []string{"", "http://A.example", "https://A.example", "https://A.example/", "https://B.example", "HTTPS://A.EXAMPLE", "https://A.example:443", "É", "\xff", "A\xff", "A\xfe", "E\u0301", " ", strings.Repeat("S", 300), "A\x00"}
	subjects := []string{"u1", "u\xff", "u\xfe", "u\xc3", "\xffu", "e\u0301", "\u00e9", "u\u200b", "u\u00ad", "u2", "u11", "1u", "ü", "u\x00", "u\x001", "u 1", strings.Repeat("u", 300), "0", "uU"}
	blanks := []string{"", " ", "\t", "\n", " \r\n\t ", "\u00a0", "\u2003"}
	for si, salt := range salts {
		si, salt := si, salt
		c.Case(fmt.Sprintf("salt #%d (%d bytes)", si, len(salt)), func() string {
			e := pairwise.Hash(salt)
			for _, b := range blanks {
				for _, sec := range sectors {
					c.Step()
					if r, err := e.Encode(sec, b); err == nil || r != "" {
						return fmt.Sprintf("a blank subject %q gives %q %v", b, r, err)
					}
				}
			}
			if len(salt) < 16 || len(salt) > 64 {
				r, err := e.Encode("sector", "u1")
				c.Outcome("salt refused")
				if err == nil || r != "" {
					return fmt.Sprintf("a salt of %d bytes gives %q %v", len(salt), r, err)
				}
				return ""
			}
			seen := map[string]string{}
			for _, sec := range sectors {
				for _, sub := range subjects {
					c.Step()
					c.State(fmt.Sprint(si, sec, sub))
					r, err := e.Encode(sec, sub)
					if err != nil {
						return fmt.Sprintf("sector %q subject %q: %v", sec, sub, err)
					}
					raw, err := base64.RawURLEncoding.DecodeString(r)
					if err != nil || len(raw) != 32 {
						return fmt.Sprintf("%q is not an unpadded base64url of 32 bytes", r)
					}
					h, _ := blake2b.New256(salt)
					h.Write([]byte(sec + sub))
					if !bytes.Equal(raw, h.Sum(nil)) {
						return fmt.Sprintf("the identifier of (%q, %q) is not the one issued before", sec, sub)
					}
					if strings.Contains(r, sub) && len(sub) > 3 {
						return "the identifier reveals the subject"
					}
					if o, dup := seen[r]; dup {
						return fmt.Sprintf("%s and (%q, %q) share the identifier %s", o, sec, sub, r)
					}
					seen[r] = fmt.Sprintf("(%q, %q)", sec, sub)
					for _, again := range []func() (string, error){
						func() (string, error) { return e.Encode(sec, sub) },
						func() (string, error) { return pairwise.Hash(append([]byte(nil), salt...)).Encode(sec, sub) },
						func() (string, error) { return e.Encode(sec, " "+sub+"\n") },
					} {
						r2, err := again()
						c.Step()
						if err != nil || r2 != r {
							return fmt.Sprintf("the identifier of (%q, %q) changed from %q to %q", sec, sub, r, r2)
						}
					}
				}
			}
			c.Outcome("identifiers distinct and stable")
			return ""
		})
	}
	textSubjects(c)
	// different salts give unrelated identifiers
	c.Case("salts", func() string {
		seen := map[string]int{}
		for i, s := range salts {
			if len(s) < 16 || len(s) > 64 {
				continue
			}
			r, err := pairwise.Hash(s).Encode("https://A.example", "u1")
			c.Step()
			if err != nil {
				return err.Error()
			}
			if j, dup := seen[r]; dup {
				return fmt.Sprintf("salts #%d and #%d give the same identifier", j, i)
			}
			seen[r] = i
		}
		return ""
	})
	// histories on one encoder and concurrent use
	c.Histories("encoder", func(h *x.H) string {
		e := pairwise.Hash([]byte("0123456789abcdef"))
		seen := map[string]string{}
		for d := 0; d < c.Q(4, 5); d++ {
			k := h.Choose(7)
			in := [][2]string{{"A", "u1"}, {"A", "u2"}, {"B", "u1"}, {"B", "u2"}, {"A", ""}, {"", "u1"}, {"A", " u1 "}}[k]
			h.Label(fmt.Sprint(in))
			r, err := e.Encode(in[0], in[1])
			c.Step()
			if (err == nil) != (in[1] != "") {
				return fmt.Sprint(in, err)
			}
			if err != nil {
				continue
			}
			key := in[0] + "|" + strings.TrimSpace(in[1])
			for o, v := range seen {
				if (o == key) != (v == r) {
					return fmt.Sprintf("%s -> %s, %s -> %s", o, v, key, r)
				}
			}
			seen[key] = r
			c.State(fmt.Sprint(seen))
		}
		return ""
	})
	c.Explore("concurrent encodings", c.Q(2, 3), func() *x.World {
		e := pairwise.Hash([]byte("0123456789abcdef"))
		want := map[string]string{}
		for _, s := range []string{"u1", "u2"} {
			want[s], _ = pairwise.Hash([]byte("0123456789abcdef")).Encode("A", s)
		}
		got := make([]string, 3)
		w := &x.World{}
		subs := []string{"u1", "u2", "u1"}
		for i := range subs {
			i := i
			w.Threads = append(w.Threads, func() { got[i], _ = e.Encode("A", subs[i]) })
		}
		w.Check = func() string {
			for i, s := range subs {
				if got[i] != want[s] {
					return fmt.Sprintf("%s is %q, must be %q", s, got[i], want[s])
				}
			}
			return ""
		}
		return w
	})
}
