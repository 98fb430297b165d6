package checks

import (
	"errors"
	"fmt"
	"strings"

	"github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/token/jwt"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C19", Run: c19,
		Rule: "every pair of fields x every pair of values of an authorization request through encoder, decoder, signature; every combination of deviations of a signed request object; every byte altered"})
}

// setField sets the field fd of m to its v-th test value and reports how many there are.
func fieldValues(fd protoreflect.FieldDescriptor) []protoreflect.Value {
	strs := []string{"v", "a b", `quote " \ <>&`, "é\u2028\U0001F600", strings.Repeat("y", 2000), "null", "0", "\t\n\x00"}
	var out []protoreflect.Value
	switch {
	case fd.IsList():
		return nil
	case fd.Kind() == protoreflect.StringKind:
		if fd.HasPresence() {
			out = append(out, protoreflect.ValueOfString(""))
		}
		for _, s := range strs {
			out = append(out, protoreflect.ValueOfString(s))
		}
	case fd.Kind() == protoreflect.Uint64Kind:
		for _, n := range []uint64{0, 1, 3600, 1 << 53, 1<<53 + 1, 1<<64 - 1} {
			out = append(out, protoreflect.ValueOfUint64(n))
		}
	case fd.Kind() == protoreflect.BoolKind:
		out = append(out, protoreflect.ValueOfBool(true))
	}
	return out
}

func c19(c *x.Ctx) {
	algs := []jose.SignatureAlgorithm{jose.ES256}
	enc := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(jose.ES256, provKey(keyA(), "kA")))
	dec := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(provSet(pk{keyA(), "kA", "sig"}, pk{keyC(), "kC", "enc"}), algs))
	decB := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(provSet(pk{keyB(), "kA", "sig"}), algs))
	roundtrip := func(m *flowv1.AuthorizationRequest) string {
		c.Step()
		before := proto.Clone(m)
		raw, err := enc.Encode(bg, m)
		if err != nil {
			return "encode: " + err.Error()
		}
		if !proto.Equal(before, m) {
			return "encoding modified the request"
		}
		hd, _, ok := jwsParts(raw)
		if !ok || hd["typ"] != "oauth-authz-req+jwt" || hd["kid"] != "kA" || hd["alg"] != "ES256" {
			return fmt.Sprintf("header %v", hd)
		}
		got, err := dec.Decode(bg, raw)
		if err != nil {
			return "decode: " + err.Error()
		}
		if !proto.Equal(got, m) {
			return fmt.Sprintf("decoded %v, encoded %v", got, m)
		}
		if got, err := decB.Decode(bg, raw); err == nil || got != nil {
			return "decoded with the keys of another client"
		}
		return ""
	}
	fds := (&flowv1.AuthorizationRequest{}).ProtoReflect().Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		for vi, v1 := range fieldValues(fds.Get(i)) {
			for j := i; j < fds.Len(); j++ {
				vals := fieldValues(fds.Get(j))
				if j == i {
					vals = vals[:0]
				}
				for vj, v2 := range append(vals, protoreflect.Value{}) {
					if j != i && vj == len(vals) {
						continue
					}
					if !c.Thorough() && vi > 3 && vj > 3 {
						continue
					}
					i, j, v1, v2 := i, j, v1, v2
					c.Case(fmt.Sprintf("roundtrip %s#%d %s#%d", fds.Get(i).Name(), vi, fds.Get(j).Name(), vj), func() string {
						m := &flowv1.AuthorizationRequest{}
						m.ProtoReflect().Set(fds.Get(i), v1)
						if j != i {
							m.ProtoReflect().Set(fds.Get(j), v2)
						}
						return roundtrip(m)
					})
				}
			}
		}
	}
	for n, t := range texts {
		for i := 0; i < fds.Len(); i++ {
			fd, t := fds.Get(i), t
			if fd.Kind() != protoreflect.StringKind {
				continue
			}
			c.Case(fmt.Sprintf("roundtrip text %d as %s", n, fd.Name()), func() string {
				m := &flowv1.AuthorizationRequest{}
				if fd.IsList() {
					l := m.ProtoReflect().Mutable(fd).List()
					for _, v := range []string{t, "", t} {
						l.Append(protoreflect.ValueOfString(v))
					}
				} else {
					m.ProtoReflect().Set(fd, protoreflect.ValueOfString(t))
				}
				return roundtrip(m)
			})
		}
	}
	for n, t := range words {
		for i := 0; i < fds.Len(); i++ {
			for _, full := range []bool{false, true} {
				fd, t, full := fds.Get(i), t, full
				if fd.Kind() != protoreflect.StringKind {
					continue
				}
				c.Case(fmt.Sprintf("roundtrip word %d as %s, full=%v", n, fd.Name(), full), func() string {
					m := &flowv1.AuthorizationRequest{}
					for j := 0; full && j < fds.Len(); j++ {
						if vs := fieldValues(fds.Get(j)); len(vs) > 0 {
							m.ProtoReflect().Set(fds.Get(j), vs[1%len(vs)])
						}
					}
					if fd.IsList() {
						l := m.ProtoReflect().Mutable(fd).List()
						l.Append(protoreflect.ValueOfString("urn:first"))
						l.Append(protoreflect.ValueOfString(t))
					} else {
						m.ProtoReflect().Set(fd, protoreflect.ValueOfString(t))
					}
					return roundtrip(m)
				})
			}
		}
	}
	for n := 0; n < 4; n++ {
		n := n
		c.Case(fmt.Sprintf("roundtrip full, %d resources", n), func() string {
			m := &flowv1.AuthorizationRequest{}
			for i := 0; i < fds.Len(); i++ {
				if vs := fieldValues(fds.Get(i)); len(vs) > 0 {
					m.ProtoReflect().Set(fds.Get(i), vs[(i+n)%len(vs)])
				}
			}
			for r := 0; r < n; r++ {
				m.Resource = append(m.Resource, fmt.Sprintf("urn:r:%d", r))
			}
			return roundtrip(m)
		})
	}
	// authenticity
	now := rt.Base.Unix()
	_ = now
	full := map[string]any{"scope": "openid", "client_id": "c1", "redirect_uri": redir1, "state": state32, "response_type": "code", "nonce": nonce8}
	dims := []dim{
		{"sign", []string{"A", "B", "C", "none", "garbage", "swapped"}},
		{"alg", []string{"ES256", "none", "HS256", "ES384", ""}},
		{"kid", []string{"kA", drop, "kB", "kC", ""}},
		{"scope", []string{"openid", "<num>", "<list>", "<null>", drop}},
		{"extra", []string{drop, "unknown-claim"}},
		{"raw", []string{"ok", "", "text", "two-parts", "four-parts"}},
		{"keys", []string{"ok", "nil", "error", "empty"}},
	}
	deviations(dims, 4, func(pick []int, key string) {
		v := func(name string) string {
			for i, d := range dims {
				if d.name == name {
					return d.vals[pick[i]]
				}
			}
			panic(name)
		}
		c.Case("object "+key, func() string {
			c.Step()
			c.State(key)
			cl := copyMap(full)
			switch v("scope") {
			case "<num>":
				cl["scope"] = 3
			case "<list>":
				cl["scope"] = []string{"a"}
			case "<null>":
				cl["scope"] = nil
			case drop:
				delete(cl, "scope")
			}
			if v("extra") != drop {
				cl["zz_unknown"] = 1
			}
			h := map[string]any{"typ": "oauth-authz-req+jwt"}
			if v("alg") != "" {
				h["alg"] = v("alg")
			}
			if v("kid") != drop {
				h["kid"] = v("kid")
			}
			var raw, signer string
			switch s := v("sign"); s {
			case "A", "B", "C":
				raw, signer = craft("ES256", map[string]any{"A": keyA(), "B": keyB(), "C": keyC()}[s], h, cl), s
			case "none":
				raw = craft("none", nil, h, cl)
			case "garbage":
				raw = craft("none", nil, h, cl) + strings.Repeat("A", 86)
			case "swapped":
				good := strings.Split(craft("ES256", keyA(), h, cl), ".")
				cl["state"] = "other"
				bad := strings.Split(craft("ES256", keyA(), h, cl), ".")
				raw = good[0] + "." + bad[1] + "." + good[2]
			}
			switch v("raw") {
			case "":
				raw = ""
			case "text":
				raw = "hello"
			case "two-parts":
				raw = raw[:strings.LastIndex(raw, ".")]
			case "four-parts":
				raw += ".AAAA"
			}
			ks := provSet(pk{keyA(), "kA", "sig"}, pk{keyC(), "kC", "enc"})
			switch v("keys") {
			case "nil":
				ks = provNil
			case "error":
				ks = provErr
			case "empty":
				ks = provSet()
			}
			got, err := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(ks, algs)).Decode(bg, raw)
			authentic := v("raw") == "ok" && signer == "A" && v("alg") == "ES256" && (v("kid") == "kA" || v("kid") == drop || v("kid") == "") && v("keys") == "ok"
			wellFormed := v("scope") != "<num>" && v("scope") != "<list>"
			c.Outcome(fmt.Sprintf("decoded=%v", err == nil))
			switch {
			case (err == nil) != (got != nil):
				return "not exactly one of request and error"
			case err == nil && !(authentic && wellFormed):
				return "a request object which is not authentic was decoded"
			case err != nil && authentic && wellFormed && v("extra") == drop:
				return "refused: " + err.Error()
			}
			if err == nil && (got.State != state32 || got.ClientId != "c1" || got.RedirectUri != redir1 || v("scope") == "openid" && got.Scope != "openid") {
				return fmt.Sprintf("decoded %v", got)
			}
			return ""
		})
	})
	c.Case("tampered", func() string {
		raw := craft("ES256", keyA(), map[string]any{"alg": "ES256", "kid": "kA"}, full)
		for i := range raw {
			if i+1 == len(raw) || raw[i+1] == '.' {
				continue
			}
			c.Step()
			if _, err := dec.Decode(bg, tamper(raw, i)); err == nil {
				return fmt.Sprintf("accepted with byte %d altered", i)
			}
		}
		return ""
	})
	headerKeys(c, "request", map[string]any{"alg": "ES256", "typ": "oauth-authz-req+jwt"}, []string{"kA", "kC"}, func(h map[string]any) error {
		got, err := dec.Decode(bg, craft("ES256", keyC(), h, full))
		if err != nil && got != nil {
			return nil
		}
		return err
	})
	c.Case("encoder faults", func() string {
		if r, err := enc.Encode(bg, nil); err == nil || r != "" {
			return "nil request encoded"
		}
		if r, err := jwsreq.AuthorizationRequestEncoder(&failSerializer{out: "t", err: errors.New("x")}).Encode(bg, &flowv1.AuthorizationRequest{}); err == nil || r != "" {
			return "a signer failure returned a token"
		}
		return ""
	})
	c19instance(c)
}
