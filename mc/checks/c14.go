package checks

import (
	"context"
	"crypto/tls"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"net/http/httptest"
	"net/url"
	"strings"
	"time"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage/inmemory"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C14", Run: c14,
		Rule: "every combination of at most k deviations from a valid DPoP proof and verification request, against an independent oracle; every byte of a proof altered; every method and URL form of a prover/verifier roundtrip; storage faults"})
}

type faultyProofs struct {
	existsErr, registerErr, exists bool
	registered                     int
}

func (f *faultyProofs) Register(context.Context, string) error {
	if f.registerErr {
		return errors.New("storage down")
	}
	f.registered++
	return nil
}
func (f *faultyProofs) Delete(context.Context, string) error { return nil }
func (f *faultyProofs) Exists(context.Context, string) (bool, error) {
	if f.existsErr {
		return false, errors.New("storage down")
	}
	return f.exists, nil
}

const drop = "\x00drop"

func c14(c *x.Ctx) {
	algs := []jose.SignatureAlgorithm{jose.ES256, jose.ES384, jose.EdDSA, jose.PS256}
	const tokVal = "sldat.the-access-token"
	now := rt.Base.Unix()
	type setting struct {
		name string
		vals []any
	}
	dims := []dim{
		{"htm-claim", []string{"POST", "GET", "post", "POST ", "", drop, "PUT"}},
		{"htm", []string{"POST", "GET", "post", "", "FOO", "PUT", "DELETE"}},
		{"htu-claim", []string{"https://rs.example/r", "https://rs.example/r2", "https://rs.example/r/", "http://rs.example/r", "https://rs.example/R", "https://rs.example:443/r", "https://rs.example/r?x=1", "https://rs.example/", "https://evil.example/r", "", drop, "https://rs.example/r#f", "/r"}},
		{"htu", []string{"https://rs.example/r", "https://rs.example/r?a=b", "https://rs.example/r?", "https://rs.example/r2", "https://rs.example/r/", "http://rs.example/r", "", "not a url", "https://rs.example:443/r", "https://evil.example/r", "//rs.example/r"}},
		{"typ", []string{"dpop+jwt", "jwt", "JWT", "dpop", "at+jwt", drop, "", "DPOP+JWT", "dpop+jwt "}},
		{"jwk", []string{"A", "B", drop, "A-private", "sym", "384"}},
		{"sign", []string{"A", "B", "none", "garbage", "empty", "claims-swapped"}},
		{"alg", []string{"ES256", "none", "HS256", "ES384", "RS256", "es256"}},
		{"jti", []string{"jti-1", "", drop, "<num>", "x"}},
		{"iat", []string{"0", "-14", "+14", "-17", "+17", "-3600", "+3600", "-1000000000", drop, "<str>", "<neg>", "<ms>", "<huge>"}},
		{"ath", []string{"ok", drop, "", "other", "std-b64", "hex-trunc"}},
		{"with-token", []string{"yes", "no", "other", "empty"}},
		{"cnf", []string{"none", "A", "B", "empty"}},
		{"storage", []string{"ok", "exists", "exists-error", "register-error"}},
		{"proof", []string{"ok", "empty", "two-parts", "four-parts", "spaces"}},
	}
	k := c.Q(3, 4)
	c.Bound("simultaneous deviations", fmt.Sprint(k))
	deviations(dims, k, func(pick []int, key string) {
		if c.Skip() {
			c.SkipN()
			return
		}
		v := func(name string) string {
			for i, d := range dims {
				if d.name == name {
					return d.vals[pick[i]]
				}
			}
			panic(name)
		}
		c.Case("proof "+key, func() string {
			c.Step()
			c.State(key)
			claims := map[string]any{}
			set := func(k, val string) {
				if val != drop {
					claims[k] = val
				}
			}
			set("htm", v("htm-claim"))
			set("htu", v("htu-claim"))
			set("jti", v("jti"))
			if v("jti") == "<num>" {
				claims["jti"] = 42
			}
			iatOK := false
			switch s := v("iat"); s {
			case drop:
			case "<str>":
				claims["iat"] = fmt.Sprint(now)
			case "<neg>":
				claims["iat"] = -5
			case "<ms>":
				claims["iat"] = now * 1000
			case "<huge>":
				claims["iat"] = uint64(1<<64 - 1)
			default:
				var d int64
				fmt.Sscan(s, &d)
				claims["iat"] = now + d
				iatOK = d >= -14 && d <= 14
			}
			wantTok := map[string]string{"yes": tokVal, "no": "", "other": "another-token", "empty": ""}[v("with-token")]
			bound := tokVal
			switch v("ath") {
			case "ok":
				claims["ath"] = s256(tokVal)
			case drop:
			case "":
				claims["ath"] = ""
			case "other":
				claims["ath"] = s256("another-token")
				bound = "another-token"
			case "std-b64":
				b, _ := base64.RawURLEncoding.DecodeString(s256(tokVal))
				claims["ath"] = base64.URLEncoding.EncodeToString(b)
			case "hex-trunc":
				claims["ath"] = s256(tokVal)[:20]
			}
			athOK := v("with-token") == "no" || (v("ath") == "ok" || v("ath") == "other") && wantTok == bound && v("with-token") != "empty"
			header := map[string]any{"alg": v("alg")}
			if v("typ") != drop {
				header["typ"] = v("typ")
			}
			embedded := "A"
			switch v("jwk") {
			case "A":
				header["jwk"] = jwkMap(keyA(), false, nil)
			case "B":
				header["jwk"] = jwkMap(keyB(), false, nil)
				embedded = "B"
			case "A-private":
				header["jwk"] = jwkMap(keyA(), true, nil)
				embedded = ""
			case "sym":
				header["jwk"] = jwkMap(keySym, true, nil)
				embedded = ""
			case "384":
				header["jwk"] = jwkMap(key384(), false, nil)
				embedded = ""
			case drop:
				embedded = ""
			}
			var proof string
			signer := ""
			switch v("sign") {
			case "A":
				proof, signer = craft("ES256", keyA(), header, claims), "A"
			case "B":
				proof, signer = craft("ES256", keyB(), header, claims), "B"
			case "none":
				proof = craft("none", nil, header, claims)
			case "garbage":
				proof = craft("none", nil, header, claims) + strings.Repeat("A", 86)
			case "empty":
				proof = strings.TrimRight(craft("none", nil, header, claims), ".")
			case "claims-swapped":
				good := strings.Split(craft("ES256", keyA(), header, claims), ".")
				claims["htm"], claims["x"] = v("htm"), 1
				bad := strings.Split(craft("ES256", keyA(), header, claims), ".")
				proof = good[0] + "." + bad[1] + "." + good[2]
			}
			if v("sign") == "A" && v("alg") == "HS256" {
				proof, signer = craft("HS256", keySym, header, claims), ""
			}
			pOK := true
			switch v("proof") {
			case "empty":
				proof, pOK = "", false
			case "two-parts":
				proof, pOK = proof[:strings.LastIndex(proof, ".")], false
			case "four-parts":
				proof, pOK = proof+".AAAA", false
			case "spaces":
				proof, pOK = " "+proof, true // surrounding space: don't care
			}
			dont := v("proof") == "spaces" || v("sign") == "empty" && false
			st := &faultyProofs{exists: v("storage") == "exists", existsErr: v("storage") == "exists-error", registerErr: v("storage") == "register-error"}
			ver := dpop.DefaultVerifier(st, jwt.EmbeddedKeyVerifier(algs))
			var opts []dpop.Option
			if v("with-token") != "no" {
				opts = append(opts, dpop.WithTokenValue(wantTok))
			}
			cnfOK := true
			switch v("cnf") {
			case "A":
				opts = append(opts, dpop.WithTokenConfirmation(thumb(keyA())))
				cnfOK = embedded == "A"
			case "B":
				opts = append(opts, dpop.WithTokenConfirmation(thumb(keyB())))
				cnfOK = embedded == "B"
			case "empty":
				opts = append(opts, dpop.WithTokenConfirmation(""))
				cnfOK = false
			}
			jkt, err := ver.Verify(bg, v("htm"), v("htu"), proof, opts...)
			htmOK := v("htm") == v("htm-claim") && v("htm") != "" && v("htm") != "FOO"
			if v("htm") == "post" && v("htm-claim") == "post" {
				dont = true // lower case method names
			}
			base := strings.TrimRight(strings.SplitN(v("htu"), "?", 2)[0], "?")
			htuOK := base == v("htu-claim") && strings.HasPrefix(base, "http")
			ok := pOK && htmOK && htuOK && v("typ") == "dpop+jwt" && embedded != "" && signer == embedded && v("alg") == "ES256" &&
				v("jti") != "" && v("jti") != drop && v("jti") != "<num>" && iatOK && athOK && cnfOK && v("storage") == "ok"
			c.Outcome(fmt.Sprintf("accepted=%v", err == nil))
			switch {
			case err == nil && !ok && !dont:
				return "an invalid proof was accepted"
			case err != nil && ok && !dont:
				return fmt.Sprintf("a valid proof was rejected: %v", err)
			case err != nil && jkt != "":
				return "a rejected proof returned a thumbprint"
			case err == nil && jkt != map[string]string{"A": thumb(keyA()), "B": thumb(keyB())}[embedded]:
				return "wrong thumbprint " + jkt
			case err == nil && st.registered != 1:
				return fmt.Sprintf("the accepted proof was registered %d times", st.registered)
			}
			return ""
		})
	})
	// every single byte of a proof altered
	c.Case("tampered", func() string {
		good := craft("ES256", keyA(), map[string]any{"alg": "ES256", "typ": "dpop+jwt", "jwk": jwkMap(keyA(), false, nil)},
			map[string]any{"htm": "GET", "htu": "https://rs.example/r", "jti": "j", "iat": now})
		for i := range good {
			bad := tamper(good, i)
			// the last character of a part carries padding bits
			if i+1 == len(good) || good[i+1] == '.' {
				continue
			}
			c.Step()
			if _, err := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(algs)).Verify(bg, "GET", "https://rs.example/r", bad); err == nil {
				return fmt.Sprintf("accepted with byte %d altered", i)
			}
		}
		return ""
	})
	// iat window, second by second
	for d := int64(-60); d <= 60; d++ {
		d := d
		c.Case(fmt.Sprintf("iat %+d", d), func() string {
			c.Step()
			pr := craft("ES256", keyA(), map[string]any{"alg": "ES256", "typ": "dpop+jwt", "jwk": jwkMap(keyA(), false, nil)},
				map[string]any{"htm": "GET", "htu": "https://rs.example/r", "jti": "j", "iat": now + d})
			_, err := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(algs)).Verify(bg, "GET", "https://rs.example/r", pr)
			if d > -15 && d < 15 && err != nil {
				return "rejected: " + err.Error()
			}
			if (d < -16 || d > 16) && err == nil {
				return "accepted"
			}
			return ""
		})
	}
	extremeTimes(c, "iat", "iat", func(n json.Number) error {
		pr := craft("ES256", keyA(), map[string]any{"alg": "ES256", "typ": "dpop+jwt", "jwk": jwkMap(keyA(), false, nil)},
			map[string]any{"htm": "GET", "htu": "https://rs.example/r", "jti": "j", "iat": n})
		_, err := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(algs)).Verify(bg, "GET", "https://rs.example/r", pr)
		return err
	})
	for _, u := range []string{"", " ", "r", "://", "rs.example/r", "https://rs.example/%zz", "https://rs.example/\x7f", "http://[::1"} {
		u := u
		c.Case(fmt.Sprintf("no proof for %q", u), func() string {
			c.Step()
			signer := jwt.DPoPSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) {
				return &jose.JSONWebKey{Key: keyA(), KeyID: "k"}, nil
			})
			if s, err := dpop.DefaultProver(signer).Prove("GET", u); err == nil || s != "" {
				return fmt.Sprintf("proof %q: %v", s, err)
			}
			pr := craft("ES256", keyA(), map[string]any{"alg": "ES256", "typ": "dpop+jwt", "jwk": jwkMap(keyA(), false, nil)},
				map[string]any{"htm": "GET", "htu": u, "jti": "j", "iat": now})
			if jkt, err := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(algs)).Verify(bg, "GET", u, pr); err == nil || jkt != "" {
				return fmt.Sprintf("verified %q: %v", jkt, err)
			}
			return ""
		})
	}
	// prover / verifier roundtrip, over the HTTP request the server sees
	methods := []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "CONNECT", "OPTIONS", "TRACE", "FOO", "", "G ET"}
	schemes := []string{"http", "https"}
	hosts := []string{"rs.example", "rs.example:8443", "127.0.0.1:8085", "[::1]:80"}
	paths := []string{"/", "/r", "/a/b", "/a//b", "/a%2Fb", "/a%20b", "/caf%C3%A9", "/a/", "/a;b=c", "/a+b", "/a:b", "/.."}
	queries := []string{"", "?", "?x=1", "?x=1&y=%20"}
	keys := []struct {
		n   string
		k   any
		alg jose.SignatureAlgorithm
	}{{"A", keyA(), jose.ES256}, {"384", key384(), jose.ES384}, {"ed", keyEd(), jose.EdDSA}, {"rsa", keyRSA(), jose.PS256}}
	for _, m := range methods {
		for _, sc := range schemes {
			for _, h := range hosts {
				for _, p := range paths {
					for _, q := range queries {
						for ki, key := range keys {
							if ki > 0 && (m != "GET" || q != "" || h != "rs.example") {
								continue
							}
							m, sc, h, p, q, key := m, sc, h, p, q, key
							u := sc + "://" + h + p + q
							c.Case(fmt.Sprintf("roundtrip %s %s key=%s", m, u, key.n), func() string {
								c.Step()
								signer := jwt.DPoPSigner(key.alg, func(context.Context) (*jose.JSONWebKey, error) {
									return &jose.JSONWebKey{Key: key.k, KeyID: "k"}, nil
								})
								pr := dpop.DefaultProver(signer)
								proof, err := pr.Prove(m, u)
								legal := m != "FOO" && m != "" && m != "G ET"
								if (err == nil) != legal {
									return fmt.Sprintf("Prove: %v", err)
								}
								if err != nil {
									if proof != "" {
										return "a failed proof is not empty"
									}
									return ""
								}
								hd, cl, ok := jwsParts(proof)
								if !ok || hd["typ"] != "dpop+jwt" || cl["htm"] != m || cl["iat"] != float64(now) || cl["ath"] != nil || len(fmt.Sprint(cl["jti"])) < 8 {
									return fmt.Sprintf("claims %v %v", hd, cl)
								}
								pu, _ := url.Parse(u)
								req := httptest.NewRequest("GET", strings.SplitN(u, "#", 2)[0], nil)
								if sc == "https" {
									req.Header.Set("X-Forwarded-Scheme", "https")
									req.TLS = nil
								} else {
									req.TLS = nil
								}
								_ = pu
								seen := dpop.CleanURL(req)
								// the same request, with or without a connection encrypted to here
								for _, on := range []bool{false, true} {
									for _, forwarded := range []bool{false, true} {
										if !forwarded && on != (sc == "https") {
											continue
										}
										req.TLS = nil
										if on {
											req.TLS = &tls.ConnectionState{}
										}
										req.Header.Del("X-Forwarded-Scheme")
										if forwarded {
											req.Header.Set("X-Forwarded-Scheme", sc)
										}
										if got := dpop.CleanURL(req); got != seen {
											return fmt.Sprintf("seen as %q (forwarded %v, encrypted %v), otherwise as %q", got, forwarded, on, seen)
										}
										// what a caller adds does not change where the request arrived
										for _, hd := range []string{"X-Forwarded-Host", "X-Host", "Forwarded", "X-Original-URL", "X-Rewrite-URL", "X-Forwarded-Prefix", "X-Forwarded-Port", "X-Forwarded-For", "Origin", "Referer", "X-HTTP-Method-Override", "Host"} {
											for _, val := range []string{"evil.example", "/evil", "443", "host=evil.example;proto=https"} {
												req.Header.Set(hd, val)
												if got := dpop.CleanURL(req); got != seen {
													return fmt.Sprintf("seen as %q with %s: %s, otherwise as %q", got, hd, val, seen)
												}
											}
											req.Header.Del(hd)
										}
									}
								}
								st := inmemory.DPoPProofs()
								jkt, err := dpop.DefaultVerifier(st, jwt.EmbeddedKeyVerifier(algs)).Verify(bg, m, seen, proof)
								if err != nil {
									return fmt.Sprintf("the server sees %q: %v", seen, err)
								}
								if jkt != thumb(key.k) {
									return "thumbprint"
								}
								// any other path is refused
								for _, p2 := range paths {
									if p2 == p {
										continue
									}
									if _, err := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(algs)).Verify(bg, m, sc+"://"+h+p2, proof); err == nil {
										return "accepted for " + p2
									}
								}
								for _, m2 := range methods {
									if m2 == m {
										continue
									}
									if _, err := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(algs)).Verify(bg, m2, seen, proof); err == nil {
										return "accepted for method " + m2
									}
								}
								return ""
							})
						}
					}
				}
			}
		}
	}
	// token binding roundtrip
	toks := []string{"", "a", "sldat_x", strings.Repeat("z", 4096), "a.b.c", " a", "a ", "é"}
	for _, t1 := range toks {
		for _, t2 := range toks {
			for _, cnf := range []string{"none", "own", "other"} {
				t1, t2, cnf := t1, t2, cnf
				c.Case(fmt.Sprintf("binding %.10q(%d) %.10q(%d) cnf=%s", t1, len(t1), t2, len(t2), cnf), func() string {
					c.Step()
					pr := dpop.DefaultProver(jwt.DPoPSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) {
						return &jose.JSONWebKey{Key: keyA(), KeyID: "k"}, nil
					}))
					proof, err := pr.Prove("GET", "https://rs.example/r", dpop.WithTokenValue(t1))
					if err != nil {
						return err.Error()
					}
					opts := []dpop.Option{dpop.WithTokenValue(t2)}
					if cnf == "own" {
						opts = append(opts, dpop.WithTokenConfirmation(thumb(keyA())))
					}
					if cnf == "other" {
						opts = append(opts, dpop.WithTokenConfirmation(thumb(keyB())))
					}
					_, err = dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(algs)).Verify(bg, "GET", "https://rs.example/r", proof, opts...)
					if ok := t1 == t2 && cnf != "other"; ok != (err == nil) {
						return fmt.Sprintf("accepted=%v: %v", err == nil, err)
					}
					return ""
				})
			}
		}
	}
	_ = time.Second
	c14instance(c)
}
