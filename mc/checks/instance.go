package checks

import (
	"bytes"
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/go-jose/go-jose/v4"

	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/pkce"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/server/storage/inmemory"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

// A component which answers a question correctly the first time must answer it correctly
// at every later time: these histories put every sequence of questions, changes of the
// keys and of the clock to ONE instance and judge each answer on its own.

// letter is one question or one change; it returns "" when the answer was right.
type letter struct {
	name string
	do   func() string
}

// oneInstance runs every sequence of depth letters on the instance made by fresh.
func oneInstance(c *x.Ctx, name string, depth int, fresh func() []letter) {
	c.Bound("sequences on one instance: "+name, fmt.Sprint(depth))
	c.Histories(name, func(h *x.H) string {
		ls := fresh()
		var done []string
		for i := 0; i < depth; i++ {
			k := h.Choose(len(ls))
			h.Label(ls[k].name)
			c.Step()
			if s := ls[k].do(); s != "" {
				return ls[k].name + ": " + s
			}
			done = append(done, ls[k].name)
			c.State(name + fmt.Sprint(done))
		}
		return ""
	})
}

func clockLetter(d time.Duration) letter {
	return letter{"+" + d.String(), func() string { rt.Advance(d); return "" }}
}

// rotating is a key provider which the history changes.
type rotating struct {
	set *jose.JSONWebKeySet
	key *jose.JSONWebKey
	err error
}

func (r *rotating) keys(context.Context) (*jose.JSONWebKeySet, error) { return r.set, r.err }
func (r *rotating) one(context.Context) (*jose.JSONWebKey, error)     { return r.key, r.err }

func c14instance(c *x.Ctx) {
	algs := []jose.SignatureAlgorithm{jose.ES256}
	thumbs := map[string]string{"A": thumb(keyA()), "B": thumb(keyB())}
	keys := map[string]any{"A": keyA(), "B": keyB()}
	oneInstance(c, "one DPoP verifier", c.Q(4, 5), func() []letter {
		v := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(algs))
		n := 0
		proof := func(emb, by, htu string) string {
			n++
			return craft("ES256", keys[by], map[string]any{"alg": "ES256", "typ": "dpop+jwt", "kid": "k", "jwk": jwkMap(keys[emb], false, nil)},
				map[string]any{"jti": fmt.Sprintf("proof-%08d", n), "htm": "POST", "htu": htu, "iat": rt.Now().Unix()})
		}
		const u1, u2 = "https://rs.example/1", "https://rs.example/2"
		last := ""
		ask := func(name, emb, by, at string, ok bool) letter {
			return letter{name, func() string {
				p := proof(emb, by, u1)
				th, err := v.Verify(bg, "POST", at, p)
				if ok {
					last = p
				}
				switch {
				case !ok && (err == nil || th != ""):
					return "accepted with " + th
				case ok && err != nil:
					return "refused: " + err.Error()
				case ok && th != thumbs[emb]:
					return "the thumbprint is the one of another key"
				}
				return ""
			}}
		}
		const acc = "sldat.the-access-token"
		bound := func(name, emb, cnf string) letter {
			return letter{name, func() string {
				n++
				p := craft("ES256", keys[emb], map[string]any{"alg": "ES256", "typ": "dpop+jwt", "kid": "k", "jwk": jwkMap(keys[emb], false, nil)},
					map[string]any{"jti": fmt.Sprintf("proof-%08d", n), "htm": "POST", "htu": u1, "iat": rt.Now().Unix(), "ath": s256(acc)})
				th, err := v.Verify(bg, "POST", u1, p, dpop.WithTokenValue(acc), dpop.WithTokenConfirmation(thumbs[cnf]))
				if (err == nil) != (emb == cnf) {
					return fmt.Sprintf("accepted=%v (%v)", err == nil, err)
				}
				if err == nil && th != thumbs[emb] {
					return "the thumbprint is the one of another key"
				}
				return ""
			}}
		}
		return []letter{
			ask("proof of A", "A", "A", u1, true), ask("proof of B, same key id", "B", "B", u1, true),
			ask("forged proof of A", "A", "B", u1, false), ask("proof of A at another url", "A", "A", u2, false),
			bound("token of A, proof of A", "A", "A"), bound("token of A, proof of B", "B", "A"),
			{"last proof again", func() string {
				if last == "" {
					return ""
				}
				if th, err := v.Verify(bg, "POST", u1, last); err == nil || th != "" {
					return "a replayed proof is accepted"
				}
				return ""
			}},
			clockLetter(13 * time.Second),
		}
	})
}

func c18instance(c *x.Ctx) {
	algs := []jose.SignatureAlgorithm{jose.ES256}
	oneInstance(c, "one response decoder", c.Q(4, 5), func() []letter {
		r := &rotating{set: &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{{Key: publicOf(keyA()), KeyID: "k"}}}}
		by := "A"
		d := jarm.Decoder(issA, jwt.DefaultVerifier(r.keys, algs))
		keys := map[string]any{"A": keyA(), "B": keyB()}
		exp := rt.Now().Unix() + 60
		raws := map[string]string{}
		for _, k := range []string{"A", "B"} {
			for _, code := range []string{"code-1", "code-2", ""} {
				cl := map[string]any{"iss": issA, "aud": "c1", "exp": exp, "state": "st", "jti": "same"}
				if code != "" {
					cl["code"] = code
				} else {
					cl["error"] = "access_denied"
				}
				raws[k+code] = craft("ES256", keys[k], map[string]any{"alg": "ES256", "typ": "jarm+jwt", "kid": "k"}, cl)
			}
		}
		ask := func(name, k, code, aud string) letter {
			return letter{name, func() string {
				res, err := d.Decode(bg, aud, raws[k+code])
				ok := r.err == nil && by == k && (code == "" || aud == "c1" && rt.Now().Unix() < exp)
				good := err == nil && res.GetError() == nil
				switch {
				case code == "" && (good || ok && aud == "c1" && rt.Now().Unix() < exp && res.GetError().GetErr() != "access_denied"):
					return fmt.Sprintf("the error of the server is lost: %v %v", res, err)
				case code != "" && good != ok:
					return fmt.Sprintf("decoded=%v (%v)", good, err)
				case good && (res.Code != code || res.State != "st" || res.Issuer != issA):
					return fmt.Sprintf("decoded %v", res)
				case !good && res.GetCode() != "":
					return "a refused response carries a code"
				}
				if res != nil { // what the caller does with it is its own affair
					res.Code, res.State = "changed", "changed"
				}
				return ""
			}}
		}
		return []letter{
			ask("first response", "A", "code-1", "c1"), ask("second response", "A", "code-2", "c1"), ask("first response for another client", "A", "code-1", "c2"),
			ask("error response", "A", "", "c1"), ask("response by another key", "B", "code-1", "c1"),
			{"keys become B", func() string { r.set.Keys[0].Key, by = publicOf(keyB()), "B"; return "" }},
			{"keys fail", func() string { r.err = errDown; return "" }},
			{"keys are back", func() string { r.err = nil; return "" }},
			clockLetter(31 * time.Second),
		}
	})
	oneInstance(c, "one response encoder", c.Q(4, 5), func() []letter {
		r := &rotating{key: &jose.JSONWebKey{Key: keyA(), KeyID: "k"}}
		by := any(keyA())
		e := jarm.Encoder(jwt.JARMSigner(jose.ES256, r.one))
		ask := func(name string, resp *flowv1.AuthorizeResponse) letter {
			return letter{name, func() string {
				raw, err := e.Encode(bg, issA, resp)
				if r.err != nil {
					if err == nil || raw != "" {
						return "signed while the key provider fails"
					}
					return ""
				}
				if err != nil {
					return err.Error()
				}
				t, perr := jwt.DefaultVerifier(provSet(pk{by, "k", ""}), algs).Parse(raw)
				if perr != nil {
					return perr.Error()
				}
				var cl map[string]any
				if t.Claims(publicOf(by), &cl) != nil {
					return "not signed with the key of the provider"
				}
				if resp.Error != nil {
					if cl["error"] != resp.Error.Err || cl["code"] != nil {
						return fmt.Sprintf("claims %v", cl)
					}
				} else if cl["code"] != resp.Code || cl["state"] != resp.State || cl["aud"] != resp.ClientId || cl["iss"] != resp.Issuer || cl["exp"] != float64(rt.Now().Unix()+int64(resp.ExpiresIn)) || cl["error"] != nil {
					return fmt.Sprintf("claims %v for %v", cl, resp)
				}
				return ""
			}}
		}
		return []letter{
			ask("response", &flowv1.AuthorizeResponse{Issuer: issA, ClientId: "c1", Code: "code-1", State: "st", ExpiresIn: 60}),
			ask("other client", &flowv1.AuthorizeResponse{Issuer: issA, ClientId: "c2", Code: "code-1", State: "st", ExpiresIn: 60}),
			ask("other code", &flowv1.AuthorizeResponse{Issuer: issA, ClientId: "c1", Code: "code-2", State: "st", ExpiresIn: 60}),
			ask("error", &flowv1.AuthorizeResponse{Issuer: issA, ClientId: "c1", State: "st", Error: &corev1.Error{Err: "access_denied"}}),
			{"key becomes B", func() string { by = keyB(); r.key = &jose.JSONWebKey{Key: keyB(), KeyID: "k"}; return "" }},
			{"key fails", func() string { r.err = errDown; return "" }},
			{"key is back", func() string { r.err = nil; return "" }},
			clockLetter(31 * time.Second),
		}
	})
}

func c19instance(c *x.Ctx) {
	algs := []jose.SignatureAlgorithm{jose.ES256}
	full := func(state string) *flowv1.AuthorizationRequest {
		r := authReq("c1")
		r.State = state
		return r
	}
	oneInstance(c, "one request decoder and encoder", c.Q(4, 5), func() []letter {
		r := &rotating{key: &jose.JSONWebKey{Key: keyA(), KeyID: "k"}, set: &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{{Key: publicOf(keyA()), KeyID: "k"}}}}
		by := any(keyA())
		e := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(jose.ES256, r.one))
		d := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(r.keys, algs))
		fixed := map[string]string{}
		for n, k := range map[string]any{"A": keyA(), "B": keyB()} {
			fixed[n] = craft("ES256", k, map[string]any{"alg": "ES256", "typ": "oauth-authz-req+jwt", "kid": "k"}, map[string]any{"client_id": "c1", "state": "from " + n})
		}
		there := func(name string, q *flowv1.AuthorizationRequest) letter {
			return letter{name, func() string {
				raw, err := e.Encode(bg, q)
				if r.err != nil {
					if err == nil || raw != "" {
						return "signed while the keys fail"
					}
					return ""
				}
				if err != nil {
					return err.Error()
				}
				got, err := d.Decode(bg, raw)
				if err != nil {
					return "decode: " + err.Error()
				}
				if got.State != q.State || got.ClientId != q.ClientId || got.Scope != q.Scope || got.GetPrompt() != q.GetPrompt() || got.Prompt == nil != (q.Prompt == nil) {
					return fmt.Sprintf("decoded %v, encoded %v", got, q)
				}
				got.State, got.ClientId = "changed", "changed"
				return ""
			}}
		}
		back := func(n string, key any) letter {
			return letter{"request signed by " + n, func() string {
				got, err := d.Decode(bg, fixed[n])
				ok := r.err == nil && by == key
				if ok != (err == nil) || !ok && got != nil {
					return fmt.Sprintf("decoded=%v (%v)", err == nil, err)
				}
				if ok && (got.State != "from "+n || got.ClientId != "c1" || got.Prompt != nil) {
					return fmt.Sprintf("decoded %v", got)
				}
				return ""
			}}
		}
		withPrompt := full("s-1")
		withPrompt.Prompt = sp("consent")
		withPrompt.Scope = "openid offline_access"
		return []letter{
			there("request 1", withPrompt), there("request 2", full("s-1")), there("request 3", full("s-3")),
			back("A", keyA()), back("B", keyB()),
			{"keys become B", func() string {
				by, r.key = keyB(), &jose.JSONWebKey{Key: keyB(), KeyID: "k"}
				r.set.Keys[0].Key = publicOf(keyB())
				return ""
			}},
			{"keys fail", func() string { r.err = errDown; return "" }},
			{"keys are back", func() string { r.err = nil; return "" }},
		}
	})
}

func c20instance(c *x.Ctx) {
	algs := []jose.SignatureAlgorithm{jose.ES256}
	keys := map[string]any{"A": keyA(), "B": keyB()}
	oneInstance(c, "one verifier", c.Q(4, 5), func() []letter {
		r := &rotating{}
		have := "A"
		use := func(ks ...string) {
			r.set, r.err = &jose.JSONWebKeySet{}, nil
			for _, k := range ks {
				r.set.Keys = append(r.set.Keys, jose.JSONWebKey{Key: publicOf(keys[k]), KeyID: "k"})
			}
			have = strings.Join(ks, ",")
		}
		use("A")
		v := jwt.DefaultVerifier(r.keys, algs)
		emb := jwt.EmbeddedKeyVerifier(algs)
		raws := map[string]string{}
		for _, n := range []string{"A", "B"} {
			for _, kid := range []string{"k", ""} {
				h := map[string]any{"alg": "ES256", "typ": "t", "jwk": jwkMap(keys[n], false, nil)}
				if kid != "" {
					h["kid"] = kid
				}
				raws[n+kid] = craft("ES256", keys[n], h, map[string]any{"sub": "of " + n, "jti": "same"})
			}
		}
		pa, pb := strings.Split(raws["Ak"], "."), strings.Split(raws["Bk"], ".")
		raws["spliced"] = pa[0] + "." + pb[1] + "." + pa[2]
		ask := func(n, kid string) letter {
			return letter{"claims of " + n + " kid " + kid, func() string {
				var m, e map[string]any
				err := v.Claims(bg, raws[n+kid], &m)
				ok := r.err == nil && n != "spliced" && strings.Contains(have, n)
				if ok != (err == nil) {
					return fmt.Sprintf("accepted=%v with keys %q, fault %v (%v)", err == nil, have, r.err, err)
				}
				if ok && m["sub"] != "of "+n || !ok && len(m) != 0 {
					return fmt.Sprintf("claims %v", m)
				}
				err = emb.Claims(bg, raws[n+kid], &e)
				if (err == nil) != (n != "spliced") || err == nil && e["sub"] != "of "+n {
					return fmt.Sprintf("embedded key: %v %v", e, err)
				}
				if t, err := emb.Parse(raws[n+kid]); err == nil && n != "spliced" {
					if th, err := t.PublicKeyThumbPrint(); err != nil || th != thumb(keys[n]) {
						return "the thumbprint of another key"
					}
				}
				return ""
			}}
		}
		return []letter{
			ask("A", "k"), ask("B", "k"), ask("A", ""), ask("spliced", ""),
			{"keys become B", func() string { use("B"); return "" }},
			{"keys become A,B", func() string { use("A", "B"); return "" }},
			{"no keys", func() string { use(); return "" }},
			{"nil keys", func() string { use(); r.set = nil; return "" }},
			{"keys fail", func() string { r.err = errDown; return "" }},
			{"keys become A", func() string { use("A"); return "" }},
		}
	})
	oneInstance(c, "one signer", c.Q(4, 5), func() []letter {
		r := &rotating{key: &jose.JSONWebKey{Key: keyA(), KeyID: "k"}}
		by, kid := any(keyA()), "k"
		ss := map[string]token.Serializer{"at+jwt": jwt.AccessTokenSigner(jose.ES256, r.one), "dpop+jwt": jwt.DPoPSigner(jose.ES256, r.one)}
		ask := func(typ, sub string) letter {
			return letter{typ + " of " + sub, func() string {
				raw, err := ss[typ].Serialize(bg, map[string]any{"sub": sub})
				if r.err != nil || by == nil {
					if err == nil || raw != "" {
						return "signed without a key"
					}
					return ""
				}
				if err != nil {
					return err.Error()
				}
				h, _, _ := jwsParts(raw)
				var cl map[string]any
				if err := jwt.DefaultVerifier(provSet(pk{by, "", ""}), algs).Claims(bg, strings.TrimSpace(raw), &cl); err != nil && kid == "" {
					return err.Error()
				}
				t, err := jwt.EmbeddedKeyVerifier(algs).Parse(raw)
				if err != nil || t.Claims(publicOf(by), &cl) != nil {
					return "not signed with the key of the provider"
				}
				if cl["sub"] != sub || h["kid"] != kid || h["typ"] != typ {
					return fmt.Sprintf("claims %v header %v", cl, h)
				}
				if typ == "dpop+jwt" {
					if th, err := t.PublicKeyThumbPrint(); err != nil || th != thumb(by) {
						return "another key is embedded"
					}
				}
				return ""
			}}
		}
		return []letter{
			ask("at+jwt", "a"), ask("at+jwt", "b"), ask("dpop+jwt", "a"),
			{"key becomes B", func() string { by, kid, r.key = keyB(), "k", &jose.JSONWebKey{Key: keyB(), KeyID: "k"}; return "" }},
			{"key id becomes k2", func() string {
				if r.key != nil {
					kid, r.key = "k2", &jose.JSONWebKey{Key: r.key.Key, KeyID: "k2"}
				}
				return ""
			}},
			{"no key", func() string { by, r.key = nil, nil; return "" }},
			{"key fails", func() string { r.err = errDown; return "" }},
			{"key is back", func() string { r.err = nil; return "" }},
		}
	})
}

func c21instance(c *x.Ctx) {
	secret := []byte("0123456789abcdef0123456789abcdef")
	oneInstance(c, "one verifiable generator and verifier", c.Q(4, 5), func() []letter {
		u1 := [16]byte{0: 1, 15: 9}
		u2 := [16]byte{0: 1, 15: 8}
		cur := u1
		var srcErr error
		g := verifiable.UUIDGenerator(func() ([16]byte, error) { return cur, srcErr }, secret)
		v := verifiable.UUIDVerifier(secret)
		nonce := func(b byte) (n [12]byte) { n[3] = b; return }
		genuine := map[string][16]byte{c21mint("p", u1, nonce(1), secret): u1, c21mint("", u1, nonce(1), secret): u1, c21mint("p", u2, nonce(2), secret): u2}
		other := []byte("another secret 0123456789abcdef0")
		tails := strings.SplitN(c21mint("p", u1, nonce(1), other), "_", 3)
		t1, t2 := strings.SplitN(c21mint("p", u1, nonce(1), secret), "_", 3), strings.SplitN(c21mint("p", u2, nonce(2), secret), "_", 3)
		bad := map[string]string{
			"same content, forged": strings.Join(tails, "_"), "signature of another token": t1[0] + "_" + t1[1] + "_" + t2[2],
			"content of another token": t2[0] + "_" + t2[1] + "_" + t1[2], "prefix of another token": "q_" + t1[1] + "_" + t1[2], "same nonce, forged": t1[0] + "_" + t1[1] + "_" + b62(append(append([]byte{}, make([]byte, 12)...), bytes.Repeat([]byte{1}, 32)...), 59)}
		var ls []letter
		check := func(t string, want *[16]byte) string {
			e1 := v.Verify(t)
			got, e2 := v.Extract(t)
			if (e1 == nil) != (want != nil) || (e2 == nil) != (want != nil) {
				return fmt.Sprintf("verify=%v extract=%v", e1, e2)
			}
			if want != nil && !bytes.Equal(got, want[:]) || want == nil && len(got) != 0 {
				return fmt.Sprintf("extracted %x", got)
			}
			for i := range got {
				got[i] ^= 0xff // what the caller does with it is its own affair
			}
			return ""
		}
		for _, t := range []string{c21mint("p", u1, nonce(1), secret), c21mint("", u1, nonce(1), secret), c21mint("p", u2, nonce(2), secret)} {
			t, u := t, genuine[t]
			ls = append(ls, letter{"genuine " + t[:26], func() string { return check(t, &u) }})
		}
		for _, n := range []string{"same content, forged", "signature of another token", "content of another token", "prefix of another token", "same nonce, forged"} {
			t := bad[n]
			ls = append(ls, letter{n, func() string { return check(t, nil) }})
		}
		seen := map[string]bool{}
		gen := func(n string, prefix string) letter {
			return letter{n, func() string {
				var opts []verifiable.GenerateOption
				if prefix != "" {
					opts = append(opts, verifiable.WithTokenPrefix(prefix))
				}
				t, err := g.Generate(opts...)
				if srcErr != nil {
					if err == nil || t != "" {
						return "generated without source"
					}
					return ""
				}
				if err != nil {
					return err.Error()
				}
				if seen[t] {
					return "generated twice"
				}
				seen[t] = true
				if strings.Count(t, "_") == 2 != (prefix != "") || prefix != "" && !strings.HasPrefix(t, prefix+"_") {
					return "prefix of " + t
				}
				u := cur
				return check(t, &u)
			}}
		}
		return append(ls, gen("generate with prefix", "p"), gen("generate", ""),
			letter{"other content", func() string { cur = u2; return "" }},
			letter{"source fails", func() string { srcErr = errDown; return "" }},
			letter{"source is back", func() string { srcErr = nil; return "" }})
	})
}

func c23instance(c *x.Ctx) {
	oneInstance(c, "challenges in sequence", c.Q(4, 5), func() []letter {
		ask := func(challenge, verifier string, ok bool) letter {
			return letter{fmt.Sprintf("%.6s %.6s", challenge, verifier), func() string {
				got, _ := pkce.Validate(challenge, verifier)
				if got != ok {
					return fmt.Sprintf("valid=%v", got)
				}
				return ""
			}}
		}
		v1, v2 := verifierOK, verifierBad
		ls := []letter{ask(s256(v1), v1, true), ask(s256(v2), v2, true), ask(s256(v1), v2, false), ask(s256(v2), v1, false), ask(v1, v1, false), ask(s256(v1), "", false), ask("", "", false)}
		seen := map[string]bool{}
		return append(ls, letter{"generate", func() string {
			v, ch, err := pkce.CodeVerifier()
			if err != nil {
				return err.Error()
			}
			good, _ := pkce.Validate(ch, v)
			wrong, _ := pkce.Validate(ch, v1)
			if seen[v] || s256(v) != ch || !good || wrong {
				return "a generated pair is not usable"
			}
			seen[v] = true
			return ""
		}})
	})
}

func c27instance(c *x.Ctx) {
	mk := map[string]func(token.Serializer) token.Generator{"access": token.AccessToken, "refresh": token.RefreshToken, "assertion": token.ClientAssertion}
	for _, n := range []string{"access", "refresh", "assertion"} {
		n := n
		oneInstance(c, "one generator of "+n, c.Q(4, 5), func() []letter {
			s := &captureSerializer{}
			fail := &failing{s: s}
			g := mk[n](fail)
			ask := func(name, id string, alter func(m *tokenv1.TokenMeta, t *tokenv1.Token), ok bool) letter {
				return letter{name, func() string {
					now := uint64(rt.Now().Unix())
					t := &tokenv1.Token{TokenId: id, TokenType: typAT, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
						Metadata: &tokenv1.TokenMeta{Issuer: issA, Subject: "alice", Audience: "https://aud.example.com", ClientId: "c1", Scope: "read", IssuedAt: now, NotBefore: now, ExpiresAt: now + 600}}
					if n == "assertion" {
						t.Metadata.Subject = issA
					}
					alter(t.Metadata, t)
					s.got = nil
					before := s.n
					raw, err := g.Generate(bg, t)
					good := ok && fail.err == nil
					if good != (err == nil) || err != nil && raw != "" {
						return fmt.Sprintf("value %q error %v", raw, err)
					}
					if !good {
						return ""
					}
					if s.n != before+1 || raw != fmt.Sprintf("signed-%d", s.n) {
						return "the value is not what the signer made of these claims"
					}
					cl := asJSON(s.got)
					m := t.Metadata
					if cl["jti"] != id || cl["iss"] != m.Issuer || cl["sub"] != m.Subject || cl["exp"] != m.ExpiresAt || cl["iat"] != m.IssuedAt {
						return fmt.Sprintf("claims %v for %v", cl, m)
					}
					if n != "assertion" && (cl["scope"] != m.Scope || cl["client_id"] != m.ClientId) {
						return fmt.Sprintf("claims %v for %v", cl, m)
					}
					if n == "access" {
						cnf, _ := cl["cnf"].(map[string]any)
						if t.Confirmation == nil && cl["cnf"] != nil || t.Confirmation != nil && cnf["jkt"] != t.Confirmation.Jkt {
							return fmt.Sprintf("claims %v for %v", cl, t)
						}
					}
					return ""
				}}
			}
			none := func(*tokenv1.TokenMeta, *tokenv1.Token) {}
			return []letter{
				ask("token", "id-1", none, true),
				ask("same id, other scope", "id-1", func(m *tokenv1.TokenMeta, _ *tokenv1.Token) { m.Scope = "write" }, true),
				ask("same id, other subject and confirmation", "id-1", func(m *tokenv1.TokenMeta, t *tokenv1.Token) {
					if n != "assertion" {
						m.Subject = "bob"
					}
					t.Confirmation = &tokenv1.TokenConfirmation{Jkt: "thumb"}
				}, true),
				ask("same id, other expiry", "id-1", func(m *tokenv1.TokenMeta, _ *tokenv1.Token) { m.ExpiresAt += 7 }, true),
				ask("other id", "id-2", none, true),
				ask("no issuer", "id-1", func(m *tokenv1.TokenMeta, _ *tokenv1.Token) { m.Issuer = "" }, false),
				ask("no subject", "id-1", func(m *tokenv1.TokenMeta, _ *tokenv1.Token) { m.Subject = "" }, false),
				{"signer fails", func() string { fail.err = errDown; return "" }},
				{"signer is back", func() string { fail.err = nil; return "" }},
				clockLetter(40 * time.Second),
			}
		})
	}
}

// failing is a serializer which the history can make fail.
type failing struct {
	s   token.Serializer
	err error
}

func (f *failing) Serialize(ctx context.Context, claims any) (string, error) {
	if f.err != nil {
		return "", f.err
	}
	return f.s.Serialize(ctx, claims)
}
func (f *failing) ContentType() string { return f.s.ContentType() }
