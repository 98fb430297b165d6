package checks

import (
	"fmt"
	"strings"
	"time"

	"github.com/go-jose/go-jose/v4"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/storage/inmemory"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

// The guarantees do not depend on how much there is: on how many artefacts are
// outstanding, keys registered or words in a scope, how long a text is, where in a long
// text a difference lies, and when all this happens.

// sizes are the numbers of elements which are tried.
func sizes(max int) []int {
	var out []int
	for n := 0; n <= max && n <= 20; n++ {
		out = append(out, n)
	}
	for n := 32; n <= max; n *= 2 {
		out = append(out, n-1, n, n+1)
	}
	return out
}

func variant(s string, p int) string {
	b := []byte(s)
	if b[p] == 'x' {
		b[p] = 'y'
	} else {
		b[p] = 'x'
	}
	return string(b)
}

// populations: n artefacts outstanding at once, at two issuers.
func storePopulations(c *x.Ctx) {
	n := c.Q(3000, 30000)
	c.Bound("artefacts outstanding in one storage", fmt.Sprint(n))
	type kv struct {
		put func(iss, k, v string) error
		get func(iss, k string) (string, bool)
		del func(iss, k string) error
	}
	kinds := []struct {
		name string
		mk   func() kv
	}{
		{"codes", func() kv {
			s := inmemory.AuthorizationCodeSessions()
			return kv{func(iss, k, v string) error {
				_, err := s.Register(bg, iss, k, &sessionv1.AuthorizationCodeSession{Subject: v})
				return err
			}, func(iss, k string) (string, bool) {
				r, err := s.Get(bg, iss, k)
				return r.GetSubject(), err == nil
			}, func(iss, k string) error { return s.Delete(bg, iss, k) }}
		}},
		{"pars", func() kv {
			s := inmemory.AuthorizationRequests()
			return kv{func(iss, k, v string) error {
				_, err := s.Register(bg, iss, k, &flowv1.AuthorizationRequest{State: v})
				return err
			}, func(iss, k string) (string, bool) {
				r, err := s.Get(bg, iss, k)
				return r.GetState(), err == nil
			}, func(iss, k string) error { return s.Delete(bg, iss, k) }}
		}},
		{"device codes", func() kv {
			s := inmemory.DeviceCodeSessions()
			return kv{func(iss, k, v string) error {
				_, err := s.Register(bg, iss, "U"+k, &sessionv1.DeviceCodeSession{Issuer: iss, DeviceCode: k, Scope: sp(v), Status: devPending})
				return err
			}, func(iss, k string) (string, bool) {
				r, err := s.GetByDeviceCode(bg, iss, k)
				return r.GetScope(), err == nil
			}, nil}
		}},
		{"user codes", func() kv {
			s := inmemory.DeviceCodeSessions()
			return kv{func(iss, k, v string) error {
				_, err := s.Register(bg, iss, k, &sessionv1.DeviceCodeSession{Issuer: iss, DeviceCode: "D" + k, Scope: sp(v), Status: devPending})
				return err
			}, func(iss, k string) (string, bool) {
				r, err := s.GetByUserCode(bg, iss, k)
				return r.GetScope(), err == nil
			}, func(iss, k string) error { return s.Delete(bg, iss, k) }}
		}},
		{"token ids", func() kv {
			s := inmemory.Tokens()
			return kv{func(iss, k, v string) error {
				return s.Create(bg, iss, &tokenv1.Token{TokenId: k, Value: "V" + k, Metadata: &tokenv1.TokenMeta{Subject: v}})
			}, func(iss, k string) (string, bool) {
				r, err := s.Get(bg, iss, k)
				return r.GetMetadata().GetSubject(), err == nil
			}, func(iss, k string) error { return s.Delete(bg, iss, k) }}
		}},
		{"token values", func() kv {
			s := inmemory.Tokens()
			return kv{func(iss, k, v string) error {
				return s.Create(bg, iss, &tokenv1.Token{TokenId: "I" + k, Value: k, Metadata: &tokenv1.TokenMeta{Subject: v}})
			}, func(iss, k string) (string, bool) {
				r, err := s.GetByValue(bg, iss, k)
				return r.GetMetadata().GetSubject(), err == nil
			}, func(iss, k string) error { return s.Delete(bg, iss, "I"+k) }}
		}},
		{"proofs", func() kv {
			s := inmemory.DPoPProofs()
			return kv{func(iss, k, v string) error { return s.Register(bg, iss+k) }, func(iss, k string) (string, bool) {
				ok, err := s.Exists(bg, iss+k)
				return "", ok && err == nil
			}, func(iss, k string) error { return s.Delete(bg, iss+k) }}
		}},
	}
	for _, kd := range kinds {
		kd := kd
		c.Case("population of "+kd.name, func() string {
			s := kd.mk()
			at := func(i int) (string, string, string) {
				return []string{issA, issB}[i%2], fmt.Sprintf("key-%d", i/2), fmt.Sprintf("v%d", i)
			}
			look := func(i int, there bool) string {
				c.Step()
				iss, k, v := at(i)
				got, ok := s.get(iss, k)
				if ok != there || ok && got != "" && got != v {
					return fmt.Sprintf("entry %d of %d is %q, found %v", i, n, got, ok)
				}
				return ""
			}
			for i := 0; i < n; i++ {
				iss, k, v := at(i)
				if err := s.put(iss, k, v); err != nil {
					return fmt.Sprintf("entry %d is refused: %v", i, err)
				}
				if m := look(i, true); m != "" {
					return m
				}
			}
			for i := 0; i < n; i++ {
				if m := look(i, true); m != "" {
					return m
				}
			}
			if s.del == nil {
				return ""
			}
			for i := 0; i < n; i += 3 {
				iss, k, _ := at(i)
				if err := s.del(iss, k); err != nil {
					return fmt.Sprintf("entry %d cannot be deleted: %v", i, err)
				}
			}
			for i := 0; i < n; i++ {
				if m := look(i, i%3 != 0); m != "" {
					return m
				}
			}
			return ""
		})
		// long keys and issuers which differ in one place
		long := strings.Repeat("abcdefghij", 40)
		for p := 0; p < len(long); p++ {
			for _, where := range []string{"key", "issuer"} {
				p, where := p, where
				c.Case(fmt.Sprintf("%s: %s differs at %d", kd.name, where, p), func() string {
					s := kd.mk()
					i1, k1, i2, k2 := issA, "key", issA, "key"
					if where == "key" {
						k1, k2 = long, variant(long, p)
					} else {
						i1, i2 = issA+"/"+long, issA+"/"+variant(long, p)
					}
					c.Step()
					if err := s.put(i1, k1, "1"); err != nil {
						return err.Error()
					}
					if _, ok := s.get(i2, k2); ok {
						return "found under the other " + where
					}
					if err := s.put(i2, k2, "2"); err != nil {
						return "the other is refused: " + err.Error()
					}
					if v, ok := s.get(i1, k1); !ok || v != "" && v != "1" {
						return "replaced by the other: " + v
					}
					if s.del != nil {
						if err := s.del(i2, k2); err != nil {
							return err.Error()
						}
						if _, ok := s.get(i1, k1); !ok {
							return "deleted with the other"
						}
					}
					return ""
				})
			}
		}
	}
}

// crowd runs one kind of artefact with n of them outstanding: each is good for its owner
// exactly once (or until revoked), at its issuer, whatever happens to the others.
func crowd(c *x.Ctx, kind string) {
	n := c.Q(1500, 12000)
	c.Bound("artefacts outstanding at once: "+kind, fmt.Sprint(n))
	c.Case("crowd of "+kind, func() string {
		a := newAS()
		type it struct{ iss, client, sub, val, uc string }
		var its []it
		for i := 0; i < n; i++ {
			k := it{iss: []string{issA, issB, issC}[i%3], client: []string{"c1", "c2"}[i%2], sub: fmt.Sprintf("user-%d", i)}
			switch kind {
			case "codes":
				k.val = a.mustCode(k.iss, k.sub, k.client, "openid", "")
			case "request_uris":
				r, err := a.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: k.iss, Client: cli(k.client), Request: authReq(k.client)})
				if err != nil {
					return err.Error()
				}
				k.val = r.RequestUri
			case "device codes":
				r, err := a.dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: k.iss, ClientId: k.client})
				if err != nil {
					return err.Error()
				}
				k.val, k.uc = r.DeviceCode, r.UserCode
				if i%2 == 0 {
					if _, err := a.dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: k.iss, UserCode: k.uc, Subject: k.sub}); err != nil {
						return err.Error()
					}
				}
			default: // refresh tokens
				r, err := a.tok.Token(bg, exchangeReq(k.iss, k.client, a.mustCode(k.iss, k.sub, k.client, "openid offline_access", "consent"), redir1, verifierOK))
				if err != nil {
					return err.Error()
				}
				k.val = r.RefreshToken.Value
			}
			its = append(its, k)
		}
		use := func(i int, must bool) string {
			c.Step()
			k := its[i]
			var sub string
			var ok bool
			var err error
			var res *flowv1.TokenResponse
			switch kind {
			case "codes":
				res, err = a.tok.Token(bg, exchangeReq(k.iss, k.client, k.val, redir1, verifierOK))
			case "request_uris":
				var ar *flowv1.AuthorizeResponse
				ar, err = a.auth.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: k.iss, Subject: k.sub, Client: cli(k.client), Request: &flowv1.AuthorizationRequest{RequestUri: sp(k.val)}})
				ok, sub = ar.GetCode() != "", k.sub
			case "device codes":
				res, err = a.tok.Token(bg, pollReq(k.iss, k.client, k.val))
			default:
				res, err = a.tok.Token(bg, refreshReq(k.iss, k.client, k.val))
			}
			if kind != "request_uris" {
				ok, sub = granted(res), res.GetAccessToken().GetMetadata().GetSubject()
			}
			if ok != must {
				return fmt.Sprintf("#%d of %d: granted=%v (%v)", i, n, ok, err)
			}
			if ok && sub != k.sub {
				return fmt.Sprintf("#%d of %d is for %q, must be %q", i, n, sub, k.sub)
			}
			return ""
		}
		switch kind {
		case "codes", "request_uris":
			for i := n - 1; i >= 0; i-- {
				if m := use(i, true); m != "" {
					return m
				}
			}
			for i := 0; i < n; i++ {
				if m := use(i, false); m != "" {
					return "used again: " + m
				}
			}
		case "device codes":
			for i := n - 1; i >= 0; i-- {
				if m := use(i, i%2 == 0); m != "" {
					return m
				}
			}
		default:
			for i := 0; i < n; i += 3 {
				if r, err := a.tok.Revoke(bg, &tokenv1.RevokeRequest{Issuer: its[i].iss, Client: cli(its[i].client), Token: its[i].val}); err != nil || r.Error != nil {
					return fmt.Sprintf("#%d cannot be revoked: %v", i, err)
				}
			}
			for i := 0; i < n; i++ {
				if m := use(i, i%3 != 0); m != "" {
					return m
				}
				r, err := a.tok.Introspect(bg, &tokenv1.IntrospectRequest{Issuer: its[i].iss, Client: cli("c1"), Token: its[i].val})
				want := tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
				if i%3 == 0 {
					want = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
				}
				if err != nil || r.GetToken().GetStatus() != want || r.GetToken().GetMetadata().GetSubject() != its[i].sub {
					return fmt.Sprintf("#%d of %d is introspected as %v (%v)", i, n, r, err)
				}
			}
		}
		return ""
	})
}

// longIssuers: issuers which differ in one place only are different issuers.
func longIssuers(c *x.Ctx, kinds []string, own ...string) {
	base := "https://as.example.com/" + strings.Repeat("tenant/", 40)
	for p := len("https://"); p < len(base); p += 1 {
		if base[p] == '/' || p == len("https://as.example.co") {
			continue
		}
		p := p
		c.Case(fmt.Sprintf("issuers differ at %d", p), func() string {
			w := newHW(c, &x.H{}, own...)
			a, b := base, variant(base, p)
			for _, k := range kinds {
				switch k {
				case "code":
					if m := w.authorize(a, "c1", "alice", "openid offline_access", sp("consent")); m != nil {
						w.exchange(m, b, "c1", redir1, verifierOK, "")
						if !w.done() {
							w.exchange(m, a, "c1", redir1, verifierOK, "")
						}
					}
				case "par":
					if m := w.push(a, "c1", authReq("c1")); m != nil && !w.done() {
						w.useURI(m, b, "c1", "alice", nil, nil)
						if !w.done() {
							w.useURI(m, a, "c1", "alice", nil, nil)
						}
					}
				case "device":
					if m := w.device(a, "c1", nil, nil); m != nil && !w.done() {
						w.approve(m, b, m.uc, "eve")
						if !w.done() {
							w.approve(m, a, m.uc, "alice")
						}
						if !w.done() {
							w.poll(m, b, "c1", m.dc, "")
						}
						if !w.done() {
							w.poll(m, a, "c1", m.dc, "")
						}
					}
				case "token":
					for _, t := range w.toks {
						if w.done() {
							break
						}
						w.introspect(t, b, "c1", t.val)
						if !w.done() {
							w.revoke(t, b, "c1", t.val)
						}
						if !w.done() && t.typ == typRT {
							w.refresh(t, b, "c1", t.val, nil, "")
						}
						if !w.done() {
							w.introspect(t, a, "c1", t.val)
						}
					}
				}
				if w.done() {
					break
				}
			}
			return w.bad
		})
	}
}

// longScopes: the tokens of every grant carry all the words of a long scope, and texts of
// every length.
func longScopes(c *x.Ctx, own ...string) {
	for _, n := range sizes(600) {
		n := n
		c.Case(fmt.Sprintf("scope of %d words", n+2), func() string {
			words := []string{"openid"}
			for i := 0; i < n; i++ {
				words = append(words, fmt.Sprintf("urn:scope:%d", i))
			}
			scope := strings.Join(append(words, "offline_access"), " ")
			w := newHW(c, &x.H{}, own...)
			if w.issue(issA, "c1", "alice-"+strings.Repeat("a", n), scope, "") && !w.done() {
				w.refresh(w.toks[1], issA, "c1", w.toks[1].val, nil, "")
				if !w.done() {
					w.txchange(w.toks[0], issA, "c2", w.toks[0].val, nil, sp(resURN))
				}
				if !w.done() {
					w.txchange(w.toks[0], issA, "c2", w.toks[0].val, sp(words[len(words)-1]), nil)
				}
				if !w.done() {
					w.introspect(w.toks[0], issA, "c2", w.toks[0].val)
				}
			}
			if !w.done() {
				w.ccred(issA, "c1", sp(scope), sp("urn:"+strings.Repeat("m", n)), "")
			}
			if d := (*mdev)(nil); !w.done() {
				if d = w.device(issA, "pub", sp(scope), sp("urn:"+strings.Repeat("d", n))); d != nil && !w.done() {
					w.approve(d, issA, d.uc, "bob")
					if !w.done() {
						w.poll(d, issA, "pub", d.dc, "")
					}
				}
			}
			// a request without the words which decide about refresh tokens
			if !w.done() {
				if k := w.authorize(issA, "c1", "alice", strings.Join(words, " "), nil); k != nil {
					w.exchange(k, issA, "c1", redir1, verifierOK, "")
				}
			}
			return w.bad
		})
	}
}

// manyRegistered: every registered redirect URI, grant, mode and type counts, and only those.
func manyRegistered(c *x.Ctx) {
	for _, n := range sizes(130) {
		if n == 0 {
			continue
		}
		n := n
		c.Case(fmt.Sprintf("%d registered values", n), func() string {
			pad := func(what, last string) []string {
				var out []string
				for i := 0; i < n-1; i++ {
					out = append(out, fmt.Sprintf("%s%d", what, i))
				}
				return append(out, last)
			}
			a := newAS()
			cl := newClient("many", tConf)
			cl.GrantTypes = pad("urn:grant:", gtCode)
			cl.ResponseTypes = pad("type", "code")
			cl.ResponseModes = pad("mode", "form_post")
			cl.RedirectUris = pad("https://client.example.com/cb", "https://client.example.com/cb/last")
			a.clients.m["many"] = cl
			try := func(uri string, must bool) string {
				c.Step()
				r := authReq("many")
				r.RedirectUri, r.ResponseMode = uri, sp("form_post")
				for _, pushed := range []bool{false, true} {
					var ok bool
					var err error
					if pushed {
						var res *flowv1.RegistrationResponse
						res, err = a.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: issA, Client: cli("many"), Request: r})
						ok = res.GetRequestUri() != ""
					} else {
						var res *flowv1.AuthorizeResponse
						res, err = a.authorize(issA, "alice", "many", r)
						ok = res.GetCode() != ""
						if ok {
							for i, other := range append([]string{uri + "x"}, cl.RedirectUris...) {
								if i > 2 || other == uri {
									continue
								}
								res, _ := a.authorize(issA, "alice", "many", r)
								if tr, _ := a.tok.Token(bg, exchangeReq(issA, "many", res.GetCode(), other, verifierOK)); granted(tr) {
									return "the code of " + uri + " is redeemed with " + other
								}
							}
							if tr, err := a.tok.Token(bg, exchangeReq(issA, "many", res.Code, uri, verifierOK)); !granted(tr) {
								return "the code of " + uri + " is not redeemed: " + err.Error()
							}
						}
					}
					if ok != must {
						return fmt.Sprintf("redirect_uri %s: accepted=%v, pushed %v (%v)", uri, ok, pushed, err)
					}
				}
				return ""
			}
			for i, u := range cl.RedirectUris {
				if n > 40 && i%7 != 0 && i < n-2 {
					continue
				}
				if m := try(u, true); m != "" {
					return m
				}
			}
			return try(fmt.Sprintf("https://client.example.com/cb%d", n), false)
		})
	}
	// texts of every length
	for _, n := range sizes(5000) {
		n := n
		c.Case(fmt.Sprintf("texts of %d bytes", n), func() string {
			a := newAS()
			c.Step()
			r := authReq("c1")
			r.State, r.Nonce, r.Audience = strings.Repeat("s", n), strings.Repeat("n", n), strings.Repeat("a", n)
			res, err := a.authorize(issA, "alice", "c1", r)
			ok := n >= 32
			if ok != (err == nil) || ok != (res.GetCode() != "") {
				return fmt.Sprintf("accepted=%v (%v)", err == nil, err)
			}
			if ok && res.State != strings.Repeat("s", n) {
				return "another state is returned"
			}
			if !ok {
				return ""
			}
			tr, err := a.tok.Token(bg, exchangeReq(issA, "c1", res.Code, redir1, verifierOK))
			if err != nil || tr.AccessToken.Metadata.Audience != strings.Repeat("a", n) {
				return fmt.Sprintf("audience %q (%v)", tr.GetAccessToken().GetMetadata().GetAudience(), err)
			}
			return ""
		})
	}
}

// manyKeys: a signature by any key of a large set verifies, one by a key outside does not.
func manyKeys(c *x.Ctx, what string) {
	algs := []jose.SignatureAlgorithm{jose.ES256}
	now := rt.Base.Unix()
	for _, n := range sizes(130) {
		if n == 0 {
			continue
		}
		for _, kids := range []string{"none", "same", "own"} {
			n, kids := n, kids
			c.Case(fmt.Sprintf("set of %d keys, key ids %s", n, kids), func() string {
				for _, pos := range []int{0, n / 2, n - 1, -1} {
					c.Step()
					set := &jose.JSONWebKeySet{}
					var maps []map[string]any
					kid := ""
					for i := 0; i < n; i++ {
						k := any(keyB())
						if i == pos {
							k = keyA()
						}
						id := map[string]string{"none": "", "same": "k", "own": fmt.Sprintf("k%d", i)}[kids]
						if i == pos {
							kid = id
						}
						set.Keys = append(set.Keys, jose.JSONWebKey{Key: publicOf(k), KeyID: id})
						m := jwkMap(k, false, nil)
						if id != "" {
							m["kid"] = id
						}
						maps = append(maps, m)
					}
					h := map[string]any{"alg": "ES256", "typ": "t"}
					if kid != "" {
						h["kid"] = kid
					}
					var err error
					switch what {
					case "verifier":
						var m map[string]any
						err = jwt.DefaultVerifier(provSetOf(set), algs).Claims(bg, craft("ES256", keyA(), h, map[string]any{"sub": "s"}), &m)
						if err != nil && len(m) != 0 {
							return fmt.Sprintf("a refused token released the claims %v", m)
						}
					case "private_key_jwt":
						st := &faultClients{m: map[string]*clientv1.Client{"k1": {ClientId: "k1", Jwks: jwks(maps...)}}}
						_, err = clientauthentication.PrivateKeyJWT(st, algs).Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: sp(atBearer),
							ClientAssertion: sp(craft("ES256", keyA(), h, map[string]any{"iss": "k1", "sub": "k1", "aud": "https://as", "jti": "j", "exp": now + 60}))})
					case "attestation":
						st := &faultClients{m: map[string]*clientv1.Client{"wallet": {ClientId: "wallet"}, "attester": {ClientId: "attester", Jwks: jwks(maps...)}}}
						att := craft("ES256", keyA(), h, map[string]any{"iss": "attester", "sub": "wallet", "exp": now + 60, "cnf": map[string]any{"jwk": jwkMap(keyC(), false, nil)}})
						pop := craft("ES256", keyC(), map[string]any{"alg": "ES256"}, map[string]any{"iss": "wallet", "aud": "https://as", "jti": "j", "exp": now + 60})
						_, err = clientauthentication.ClientAttestation(st, algs).Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: sp(atAttestation), ClientAssertion: sp(att + "~" + pop)})
					}
					if (err == nil) != (pos >= 0) {
						return fmt.Sprintf("signing key at %d of %d: accepted=%v (%v)", pos, n, err == nil, err)
					}
				}
				return ""
			})
		}
	}
}

// manyProofs: every one of many proofs is accepted once, and none twice.
func manyProofs(c *x.Ctx) {
	n := c.Q(1500, 15000)
	c.Bound("proofs remembered at once", fmt.Sprint(n))
	algs := []jose.SignatureAlgorithm{jose.ES256}
	const u = "https://rs.example/r"
	c.Case("crowd of proofs", func() string {
		v := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(algs))
		var ps []string
		for i := 0; i < n; i++ {
			c.Step()
			p := mkProof(keyA(), fmt.Sprintf("proof-%d", i), rt.Now().Unix(), "GET", u)
			if _, err := v.Verify(bg, "GET", u, p); err != nil {
				return fmt.Sprintf("proof %d: %v", i, err)
			}
			ps = append(ps, p)
		}
		for i, p := range ps {
			c.Step()
			if _, err := v.Verify(bg, "GET", u, p); err == nil {
				return fmt.Sprintf("proof %d of %d is accepted again", i, n)
			}
		}
		return ""
	})
	long := strings.Repeat("abcdefghij", 40)
	for p := 0; p < len(long); p += c.Q(3, 1) {
		p := p
		c.Case(fmt.Sprintf("identifiers differ at %d", p), func() string {
			c.Step()
			v := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(algs))
			for i, j := range []string{long, variant(long, p), long} {
				_, err := v.Verify(bg, "GET", u, mkProof(keyA(), j, rt.Now().Unix(), "GET", u))
				if (err == nil) != (i < 2) {
					return fmt.Sprintf("proof #%d: accepted=%v (%v)", i, err == nil, err)
				}
			}
			return ""
		})
	}
	// the identifier counts, not what else differs
	for _, m := range []string{"GET", "POST"} {
		for _, at := range []string{u, u + "2"} {
			for _, d := range []int64{-3, 0, 2} {
				m, at, d := m, at, d
				c.Case(fmt.Sprintf("same identifier with %s %s iat%+d", m, at, d), func() string {
					c.Step()
					v := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(algs))
					if _, err := v.Verify(bg, "GET", u, mkProof(keyA(), "proof-1", rt.Now().Unix(), "GET", u)); err != nil {
						return err.Error()
					}
					if _, err := v.Verify(bg, m, at, mkProof(keyA(), "proof-1", rt.Now().Unix()+d, m, at)); err == nil {
						return "accepted"
					}
					return ""
				})
			}
		}
	}
}

// eras runs the life of each kind of artefact at different times and fractions of a second.
func eras(c *x.Ctx, kinds []string, own ...string) {
	starts := []string{"1999-12-31T23:59:30Z", "2001-09-09T01:46:30Z", "2024-02-28T23:59:30Z", "2031-03-30T00:59:30Z", "2031-10-26T00:59:30Z", "2033-05-18T03:33:00Z", "2038-01-19T03:13:40Z", "2065-01-24T05:19:50Z", "2100-02-28T23:59:30Z", "2106-02-07T06:28:00Z", "2200-12-31T23:59:30Z"}
	c.Bound("instants", fmt.Sprintf("%d x 4 fractions", len(starts)))
	const ms = time.Millisecond
	for _, s := range starts {
		t, err := time.Parse(time.RFC3339, s)
		if err != nil {
			panic(err)
		}
		for _, frac := range []time.Duration{0, 1, 500 * ms, 999999999} {
			for _, kind := range kinds {
				t, s, frac, kind := t, s, frac, kind
				steps := map[string][]time.Duration{
					"code": {0, 58 * time.Second, 62 * time.Second, 24 * time.Hour}, "par": {0, 58 * time.Second, 62 * time.Second, 24 * time.Hour},
					"device": {0, 118 * time.Second, 122 * time.Second, 24 * time.Hour}, "token": {0, 58 * time.Minute, 62 * time.Minute, 7*24*time.Hour - 62*time.Minute, 7*24*time.Hour - 58*time.Minute, 7*24*time.Hour + 2*time.Second},
				}[kind]
				for _, d := range steps {
					d := d
					c.Case(fmt.Sprintf("%s at %s+%s after %s", kind, s, frac, d), func() string {
						w := newHW(c, &x.H{}, own...)
						w.advance(t.Add(frac).Sub(rt.Base))
						switch kind {
						case "code":
							if k := w.authorize(issA, "c1", "alice", "openid", nil); k != nil && !w.done() {
								w.advance(d)
								w.exchange(k, issA, "c1", redir1, verifierOK, "")
							}
						case "par":
							if p := w.push(issA, "c1", authReq("c1")); p != nil && !w.done() {
								w.advance(d)
								w.useURI(p, issA, "c1", "alice", nil, nil)
							}
						case "device":
							if k := w.device(issA, "c1", nil, nil); k != nil && !w.done() {
								w.approve(k, issA, k.uc, "alice")
								w.advance(d)
								if !w.done() {
									w.poll(k, issA, "c1", k.dc, "")
								}
							}
						case "token":
							if !w.issue(issA, "c1", "alice", "openid offline_access", "jkt") || w.done() {
								break
							}
							w.advance(d)
							w.introspect(w.toks[0], issA, "c2", w.toks[0].val)
							if !w.done() {
								w.txchange(w.toks[0], issA, "c2", w.toks[0].val, nil, nil)
							}
							if !w.done() {
								w.refresh(w.toks[1], issA, "c1", w.toks[1].val, nil, "")
							}
							if !w.done() {
								w.refresh(w.toks[1], issA, "c1", w.toks[1].val, nil, "")
							}
							if !w.done() {
								w.revoke(w.toks[1], issA, "c1", w.toks[1].val)
							}
						}
						return w.bad
					})
				}
			}
		}
	}
}
