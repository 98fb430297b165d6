package checks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/go-jose/go-jose/v4"

	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C18", Run: c18,
		Rule: "every combination of at most k deviations from a valid response token against an independent oracle; every encoder input; every issuer/audience/clock combination of a roundtrip; every byte altered"})
}

// provKey is a signing key provider.
func provKey(key any, kid string) func(context.Context) (*jose.JSONWebKey, error) {
	return func(context.Context) (*jose.JSONWebKey, error) { return &jose.JSONWebKey{Key: key, KeyID: kid}, nil }
}

type pk struct {
	key any
	kid string
	use string
}

// provSet is a verification key set provider.
func provSet(keys ...pk) func(context.Context) (*jose.JSONWebKeySet, error) {
	s := &jose.JSONWebKeySet{}
	for _, k := range keys {
		s.Keys = append(s.Keys, jose.JSONWebKey{Key: publicOf(k.key), KeyID: k.kid, Use: k.use})
	}
	return func(context.Context) (*jose.JSONWebKeySet, error) { return s, nil }
}

type failSerializer struct {
	out string
	err error
	got any
}

func (f *failSerializer) Serialize(_ context.Context, claims any) (string, error) {
	f.got = claims
	return f.out, f.err
}
func (f *failSerializer) ContentType() string { return "X" }

func c18(c *x.Ctx) {
	now := rt.Base.Unix()
	algs := []jose.SignatureAlgorithm{jose.ES256}
	verifier := func() token.Verifier {
		return jwt.DefaultVerifier(provSet(pk{keyA(), "kA", "sig"}, pk{keyC(), "kC", "enc"}), algs)
	}
	dims := []dim{
		{"typ", []string{"jarm+jwt", "jwt", drop, "", "at+jwt", "jarm", "JARM+JWT"}},
		{"alg", []string{"ES256", "none", "HS256", "ES384"}},
		{"sign", []string{"A", "B", "C", "none", "garbage", "swapped"}},
		{"kid", []string{"kA", drop, "kB", "kC", ""}},
		{"iss", []string{issA, issB, "", drop, issA + "/", "<num>"}},
		{"aud", []string{"c1", "c2", "", drop, "C1", "<list>"}},
		{"exp", []string{"60", "-60", drop, "<zero>", "<str>", "<neg>", "-3600"}},
		{"code", []string{"code-1", drop, ""}},
		{"state", []string{"st", drop}},
		{"error", []string{drop, "access_denied", ""}},
		{"decoder-issuer", []string{issA, issB, ""}},
		{"audience", []string{"c1", "c2", ""}},
		{"raw", []string{"ok", "", "text", "two-parts"}},
	}
	k := c.Q(3, 4)
	c.Bound("simultaneous deviations", fmt.Sprint(k))
	deviations(dims, k, func(pick []int, key string) {
		if c.Skip() {
			c.SkipN()
			return
		}
		v := func(name string) string {
			for i, d := range dims {
				if d.name == name {
					return d.vals[pick[i]]
				}
			}
			panic(name)
		}
		c.Case("response "+key, func() string {
			c.Step()
			c.State(key)
			claims := map[string]any{}
			for _, n := range []string{"iss", "aud", "code", "state", "error"} {
				switch s := v(n); s {
				case drop:
				case "<num>":
					claims[n] = 7
				case "<list>":
					claims[n] = []string{"c1"}
				default:
					claims[n] = s
				}
			}
			expOK := false
			switch s := v("exp"); s {
			case drop:
			case "<zero>":
				claims["exp"] = 0
			case "<neg>":
				claims["exp"] = -1
			case "<str>":
				claims["exp"] = fmt.Sprint(now + 60)
			default:
				var d int64
				fmt.Sscan(s, &d)
				claims["exp"], expOK = now+d, d > 0
			}
			h := map[string]any{"alg": v("alg")}
			if v("typ") != drop {
				h["typ"] = v("typ")
			}
			if v("kid") != drop {
				h["kid"] = v("kid")
			}
			var raw, signer string
			switch s := v("sign"); s {
			case "A", "B", "C":
				raw, signer = craft("ES256", map[string]any{"A": keyA(), "B": keyB(), "C": keyC()}[s], h, claims), s
			case "none":
				raw = craft("none", nil, h, claims)
			case "garbage":
				raw = craft("none", nil, h, claims) + strings.Repeat("A", 86)
			case "swapped":
				good := strings.Split(craft("ES256", keyA(), h, claims), ".")
				claims["x"] = 1
				bad := strings.Split(craft("ES256", keyA(), h, claims), ".")
				raw = good[0] + "." + bad[1] + "." + good[2]
			}
			switch v("raw") {
			case "":
				raw = ""
			case "text":
				raw = "hello"
			case "two-parts":
				raw = raw[:strings.LastIndex(raw, ".")]
			}
			res, err := jarm.Decoder(v("decoder-issuer"), verifier()).Decode(bg, v("audience"), raw)
			authentic := v("raw") == "ok" && v("alg") == "ES256" && signer == "A" && (v("kid") == "kA" || v("kid") == drop || v("kid") == "") && v("typ") == "jarm+jwt"
			isErr := v("error") == "access_denied"
			issOf, audOf := v("iss"), v("aud")
			if issOf == drop {
				issOf = ""
			}
			if audOf == drop {
				audOf = ""
			}
			ok := authentic && issOf == v("decoder-issuer") && audOf == v("audience") && v("audience") != "" && expOK
			success := err == nil && res != nil && res.Error == nil
			c.Outcome(fmt.Sprintf("success=%v", success))
			switch {
			case err == nil && res == nil:
				return "neither result nor error"
			case !authentic && err == nil:
				return "a response which is not authentic was decoded"
			case success && isErr:
				return "an error response was decoded as a success"
			case success && !ok:
				return "an invalid response was decoded"
			case !success && ok && !isErr && v("code") == "code-1" && v("state") == "st":
				return fmt.Sprintf("a valid response was refused: %v", err)
			case authentic && ok && isErr && (err != nil || res.Error.Err != "access_denied"):
				return "the error of the server is lost"
			case !success && res != nil && res.Code != "":
				return "a refused response carries a code"
			}
			if success {
				want := func(n string) string {
					if v(n) == drop {
						return ""
					}
					return v(n)
				}
				if res.Code != want("code") || res.State != want("state") || res.Issuer != issOf {
					return fmt.Sprintf("decoded %+v", res)
				}
			}
			return ""
		})
	})
	// encoder: exactly the response which was given
	vals := []string{"v", "", "ü ~&<>\u2028", strings.Repeat("x", 3000)}
	expiries := []uint64{60, 1, 0, 600, 31536000}
	for _, issuer := range []string{issA, ""} {
		for _, cid := range vals {
			for _, code := range vals {
				for _, st := range vals {
					for _, ex := range expiries {
						for _, e := range []string{"", "invalid_request", "server_error"} {
							issuer, cid, code, st, ex, e := issuer, cid, code, st, ex, e
							c.Case(fmt.Sprintf("encode iss=%q client=%.9q(%d) code=%.9q(%d) state=%.9q(%d) expires_in=%d error=%q", issuer, cid, len(cid), code, len(code), st, len(st), ex, e), func() string {
								c.Step()
								resp := &flowv1.AuthorizeResponse{Issuer: issA, ClientId: cid, Code: code, State: st, ExpiresIn: ex}
								if e != "" {
									resp.Error = &corev1.Error{Err: e, ErrorDescription: "d " + e}
								}
								raw, err := jarm.Encoder(jwt.JARMSigner(jose.ES256, provKey(keyA(), "kA"))).Encode(bg, issuer, resp)
								ok := issuer != "" && (e != "" || cid != "" && code != "" && st != "" && ex > 0)
								if ok != (err == nil) {
									return fmt.Sprintf("encoded=%v: %v", err == nil, err)
								}
								if err != nil {
									if raw != "" {
										return "a failure returned a token"
									}
									return ""
								}
								hd, cl, okp := jwsParts(raw)
								if !okp || hd["typ"] != "jarm+jwt" {
									return fmt.Sprintf("header %v", hd)
								}
								if e != "" {
									if cl["error"] != e || cl["code"] != nil || (st != "" && cl["state"] != st) || cl["error_description"] != "d "+e {
										return fmt.Sprintf("claims %v", cl)
									}
								} else if cl["iss"] != issA || cl["aud"] != cid || cl["code"] != code || cl["state"] != st || cl["exp"] != float64(now+int64(ex)) || cl["error"] != nil {
									return fmt.Sprintf("claims %v", cl)
								}
								// roundtrip, over decoders and clock
								for _, di := range []string{issA, issB} {
									for _, da := range []string{"v", "other", cid} {
										for _, adv := range []int64{0, int64(ex) - 2, int64(ex) + 1} {
											if da == "" || adv < 0 {
												continue
											}
											rt.SetNow(rt.Base.Add(time.Duration(adv) * time.Second))
											res, err := jarm.Decoder(di, verifier()).Decode(bg, da, raw)
											rt.ResetClock()
											if e != "" {
												if err != nil || res.Error == nil || res.Error.Err != e || res.Code != "" {
													if di == issA {
														return "error response lost"
													}
												}
												continue
											}
											good := di == issA && da == cid && adv <= int64(ex)
											if good != (err == nil) {
												return fmt.Sprintf("decoded=%v by issuer %q audience %.9q at +%ds: %v", err == nil, di, da, adv, err)
											}
											if good && (res.Code != code || res.State != st || res.Issuer != issA || res.Error != nil) {
												return "decoded something else"
											}
										}
									}
								}
								return ""
							})
						}
					}
				}
			}
		}
	}
	textResponses(c)
	headerKeys(c, "response", map[string]any{"alg": "ES256", "typ": "jarm+jwt"}, []string{"kA", "kC"}, func(h map[string]any) error {
		res, err := jarm.Decoder(issA, verifier()).Decode(bg, "c1", craft("ES256", keyC(), h, map[string]any{"iss": issA, "aud": "c1", "exp": now + 60, "code": "x", "state": "s"}))
		if err != nil && res != nil {
			return nil
		}
		return err
	})
	extremeTimes(c, "exp", "exp", func(n json.Number) error {
		_, err := jarm.Decoder(issA, verifier()).Decode(bg, "c1", craft("ES256", keyA(), map[string]any{"alg": "ES256", "typ": "jarm+jwt", "kid": "kA"}, map[string]any{"iss": issA, "aud": "c1", "exp": n, "code": "x", "state": "s"}))
		return err
	})
	// look-alikes of the issuer, the audience and the type
	type nv struct{ what, val, exp string }
	var nvs []nv
	for _, i := range append(near(issA), "HTTPS://as.example.com/t", "https://AS.example.com/t", "https://as.example.com:443/t", "https://as.example.com/./t", "https://as.example.com//t", "https://as.example.com/%74", "as.example.com/t") {
		nvs = append(nvs, nv{"iss", i, issA}, nv{"iss", issA, i})
	}
	for _, a := range near("c1") {
		nvs = append(nvs, nv{"aud", a, "c1"}, nv{"aud", "c1", a})
	}
	for _, t := range near("jarm+jwt") {
		nvs = append(nvs, nv{"typ", t, "jarm+jwt"})
	}
	c.Bound("look-alike spellings", fmt.Sprint(len(nvs)))
	for n, v := range nvs {
		n, v := n, v
		c.Case(fmt.Sprintf("look-alike %d: %s %q for %q", n, v.what, v.val, v.exp), func() string {
			c.Step()
			iss, aud := issA, "c1"
			h := map[string]any{"alg": "ES256", "typ": "jarm+jwt", "kid": "kA"}
			claims := map[string]any{"iss": issA, "aud": "c1", "exp": now + 60, "code": "x", "state": "s"}
			if v.what == "typ" {
				h["typ"] = v.val
			} else {
				claims[v.what] = v.val
				if v.what == "iss" {
					iss = v.exp
				} else {
					aud = v.exp
				}
			}
			for _, e := range []string{"", "access_denied"} {
				if e != "" {
					claims["error"] = e
					delete(claims, "code")
				}
				res, err := jarm.Decoder(iss, verifier()).Decode(bg, aud, craft("ES256", keyA(), h, claims))
				if err == nil && res.GetError() == nil {
					return "decoded"
				}
				if res.GetCode() != "" {
					return "a refused response carries a code"
				}
			}
			return ""
		})
	}
	// an error without a code is an error all the same
	for i, e := range []*corev1.Error{{}, {ErrorDescription: "no"}, {State: sp("s")}, {Err: " "}} {
		for _, full := range []bool{true, false} {
			e, full := e, full
			c.Case(fmt.Sprintf("error#%d without a code, full=%v", i, full), func() string {
				c.Step()
				m := &flowv1.AuthorizeResponse{Error: e, State: "s"}
				if full {
					m.Issuer, m.ClientId, m.Code, m.ExpiresIn = issA, "c1", "code-1", 60
				}
				raw, err := jarm.Encoder(jwt.JARMSigner(jose.ES256, provKey(keyA(), "kA"))).Encode(bg, issA, m)
				if err != nil {
					return ""
				}
				res, err := jarm.Decoder(issA, verifier()).Decode(bg, "c1", raw)
				if res.GetCode() != "" || (err == nil && res.GetError() == nil) {
					return fmt.Sprintf("decoded as a success: %v", res)
				}
				return ""
			})
		}
	}
	c.Case("encoder faults", func() string {
		ok := &flowv1.AuthorizeResponse{Issuer: issA, ClientId: "c", Code: "x", State: "s", ExpiresIn: 5}
		if r, err := jarm.Encoder(&failSerializer{out: "token", err: errors.New("x")}).Encode(bg, issA, ok); err == nil || r != "" {
			return "a signer failure returned a token"
		}
		if r, err := jarm.Encoder(&failSerializer{out: "token"}).Encode(bg, issA, nil); err == nil || r != "" {
			return "nil response encoded"
		}
		return ""
	})
	c.Case("tampered", func() string {
		raw := craft("ES256", keyA(), map[string]any{"alg": "ES256", "typ": "jarm+jwt", "kid": "kA"}, map[string]any{"iss": issA, "aud": "c1", "exp": now + 60, "code": "x", "state": "s"})
		for i := range raw {
			if i+1 == len(raw) || raw[i+1] == '.' {
				continue
			}
			c.Step()
			if res, err := jarm.Decoder(issA, verifier()).Decode(bg, "c1", tamper(raw, i)); err == nil || res.GetCode() != "" {
				return fmt.Sprintf("accepted with byte %d altered", i)
			}
		}
		return ""
	})
	c18instance(c)
}
