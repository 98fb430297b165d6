package checks

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/go-jose/go-jose/v4"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/server/clientauthentication"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C17", Run: c17,
		Rule: "every combination of at most k deviations from a valid attestation, proof of possession, registration and storage answer, against an independent oracle; every byte altered; every history of rotations and clock moves"})
}

func c17(c *x.Ctx) {
	algs := []jose.SignatureAlgorithm{jose.ES256, jose.ES384}
	now := rt.Base.Unix()
	js := jwksVariants()
	hasA := map[string]bool{"A": true, "sigA": true, "B,A": true, "encB,A": true, "384,A": true}
	// the attester signs with A; the instance key is B; C is an attacker
	times := []string{"60", "-60", drop, "<zero>", "<str>", "<neg>"}
	nbfs := []string{"-1", "60", drop, "<str>", "3600"}
	dims := []dim{
		{"type", []string{atAttestation, "<nil>", "", atBearer}},
		{"jwks", []string{"A", "sigA", "B", "B,A", "encA", "encA,B", "encB,A", "384,A", "none", "empty", "bad"}},
		{"att-sign", []string{"A", "C", "none", "garbage", "swapped", "B"}},
		{"att-alg", []string{"ES256", "none", "ES384"}},
		{"att-iss", []string{"attester", "wallet", "ghost", "", drop}},
		{"att-sub", []string{"wallet", "wallet2", "ghost", "", drop, "attester"}},
		{"att-exp", times},
		{"att-nbf", nbfs},
		{"cnf", []string{"B", "C", "none", "empty", "null", "priv", "sym", "jkt"}},
		{"pop-sign", []string{"B", "C", "A", "none", "garbage", "swapped"}},
		{"pop-alg", []string{"ES256", "none"}},
		{"pop-iss", []string{"wallet", "wallet2", "ghost", "", drop, "attester"}},
		{"pop-aud", []string{"https://as", "", drop}},
		{"pop-jti", []string{"j", "", drop}},
		{"pop-exp", times},
		{"pop-nbf", nbfs},
		{"storage", []string{"ok", "error-1", "error-2"}},
		{"shape", []string{"ok", "<nil>", "empty", "att-only", "pop-only", "att~", "~pop", "pop~att", "att~pop~x", "att~~pop", "att.pop"}},
	}
	k := c.Q(3, 3)
	c.Bound("simultaneous deviations", fmt.Sprint(k))
	deviations(dims, k, func(pick []int, key string) {
		if c.Skip() {
			c.SkipN()
			return
		}
		v := func(name string) string {
			for i, d := range dims {
				if d.name == name {
					return d.vals[pick[i]]
				}
			}
			panic(name)
		}
		c.Case("attestation "+key, func() string {
			c.Step()
			c.State(key)
			tm := func(m map[string]any, n, s string) (future, valid bool) {
				switch s {
				case drop:
					return false, false
				case "<zero>":
					m[n] = 0
					return false, false
				case "<str>":
					m[n] = fmt.Sprint(now + 60)
					return false, false
				case "<neg>":
					m[n] = -1
					return false, false
				}
				var d int64
				fmt.Sscan(s, &d)
				m[n] = now + d
				return d > 0, true
			}
			str := func(m map[string]any, n, s string) {
				if s != drop {
					m[n] = s
				}
			}
			att := map[string]any{"iat": now, "jti": "aj"}
			str(att, "iss", v("att-iss"))
			str(att, "sub", v("att-sub"))
			f, ok := tm(att, "exp", v("att-exp"))
			attExp := f && ok
			f, ok = tm(att, "nbf", v("att-nbf"))
			attNbf := v("att-nbf") == drop || ok && !f
			cnfKey := ""
			dont := false
			switch v("cnf") {
			case "B":
				att["cnf"], cnfKey = map[string]any{"jwk": jwkMap(keyB(), false, nil)}, "B"
			case "C":
				att["cnf"], cnfKey = map[string]any{"jwk": jwkMap(keyC(), false, nil)}, "C"
			case "empty":
				att["cnf"] = map[string]any{}
			case "null":
				att["cnf"] = map[string]any{"jwk": nil}
			case "priv":
				att["cnf"], cnfKey, dont = map[string]any{"jwk": jwkMap(keyB(), true, nil)}, "B", true
			case "sym":
				att["cnf"] = map[string]any{"jwk": jwkMap(keySym, true, nil)}
			case "jkt":
				att["cnf"] = map[string]any{"jkt": thumb(keyB())}
			}
			pop := map[string]any{"iat": now}
			str(pop, "iss", v("pop-iss"))
			str(pop, "aud", v("pop-aud"))
			str(pop, "jti", v("pop-jti"))
			f, ok = tm(pop, "exp", v("pop-exp"))
			popExp := f && ok
			f, ok = tm(pop, "nbf", v("pop-nbf"))
			popNbf := v("pop-nbf") == drop || ok && !f
			sign := func(how, alg string, m map[string]any) (raw, signer string) {
				h := map[string]any{"alg": alg, "typ": "jwt"}
				switch how {
				case "A":
					return craft("ES256", keyA(), h, m), "A"
				case "B":
					return craft("ES256", keyB(), h, m), "B"
				case "C":
					return craft("ES256", keyC(), h, m), "C"
				case "none":
					return craft("none", nil, h, m), ""
				case "garbage":
					return craft("none", nil, h, m) + strings.Repeat("A", 86), ""
				}
				good := strings.Split(craft("ES256", map[bool]any{true: keyA(), false: keyB()}[m["jti"] == "aj"], h, m), ".")
				m["x"] = 1
				bad := strings.Split(craft("ES256", keyA(), h, m), ".")
				return good[0] + "." + bad[1] + "." + good[2], ""
			}
			rawAtt, attSigner := sign(v("att-sign"), v("att-alg"), att)
			rawPop, popSigner := sign(v("pop-sign"), v("pop-alg"), pop)
			req := &clientv1.AuthenticateRequest{}
			if v("type") != "<nil>" {
				req.ClientAssertionType = sp(v("type"))
			}
			switch s := v("shape"); s {
			case "ok":
				req.ClientAssertion = sp(rawAtt + "~" + rawPop)
			case "<nil>":
			case "empty":
				req.ClientAssertion = sp("")
			case "att-only":
				req.ClientAssertion = sp(rawAtt)
			case "pop-only":
				req.ClientAssertion = sp(rawPop)
			case "att~":
				req.ClientAssertion = sp(rawAtt + "~")
			case "~pop":
				req.ClientAssertion = sp("~" + rawPop)
			case "pop~att":
				req.ClientAssertion = sp(rawPop + "~" + rawAtt)
			case "att~pop~x":
				req.ClientAssertion = sp(rawAtt + "~" + rawPop + "~x")
			case "att~~pop":
				req.ClientAssertion = sp(rawAtt + "~~" + rawPop)
			case "att.pop":
				req.ClientAssertion = sp(rawAtt + "." + rawPop)
			}
			cs := &faultClients{m: map[string]*clientv1.Client{
				"attester": {ClientId: "attester", ClientName: "wallet", Jwks: js[v("jwks")]}, "wallet": {ClientId: "wallet", ClientName: "wallet2"}, "wallet2": {ClientId: "wallet2", ClientName: "wallet"}, "": {ClientId: "", Jwks: js["A,B"]}}}
			fmt.Sscanf(v("storage"), "error-%d", &cs.fail)
			res, err := clientauthentication.ClientAttestation(cs, algs).Authenticate(bg, req)
			good := v("type") == atAttestation && v("shape") == "ok" && v("att-iss") == "attester" && v("att-alg") == "ES256" && v("pop-alg") == "ES256" &&
				(attSigner == "A" && hasA[v("jwks")] || attSigner == "B" && (v("jwks") == "B" || v("jwks") == "B,A" || v("jwks") == "encA,B")) &&
				v("att-sub") != drop && v("att-sub") != "" && attExp && attNbf &&
				cnfKey != "" && popSigner == cnfKey && v("pop-iss") == v("att-sub") && v("pop-iss") != "ghost" &&
				v("pop-aud") == "https://as" && v("pop-jti") == "j" && popExp && popNbf && v("storage") == "ok"
			c.Outcome(fmt.Sprintf("authenticated=%v", err == nil))
			if m := authShape(res, err); m != "" {
				return m
			}
			switch {
			case err == nil && !good:
				return "an invalid attestation was accepted for " + res.Client.ClientId
			case err != nil && good && !dont:
				return "a valid attestation was rejected: " + err.Error()
			case err == nil && res.Client.ClientId != v("att-sub"):
				return "authenticated as " + res.Client.ClientId
			}
			return ""
		})
	})
	memo := map[string]string{}
	cached := func(key string, f func() string) string {
		if v, ok := memo[key]; ok {
			return v
		}
		v := f()
		memo[key] = v
		return v
	}
	attOf := func(sub string, key any, exp int64, cnf any) string {
		return craft("ES256", key, map[string]any{"alg": "ES256"}, map[string]any{"iss": "attester", "sub": sub, "exp": exp, "jti": "aj", "iat": now, "cnf": map[string]any{"jwk": jwkMap(cnf, false, nil)}})
	}
	popOf := func(iss string, key any, exp int64) string {
		return craft("ES256", key, map[string]any{"alg": "ES256"}, map[string]any{"iss": iss, "aud": "https://as", "exp": exp, "jti": "j", "iat": now})
	}
	store := func() *faultClients {
		return &faultClients{m: map[string]*clientv1.Client{"attester": {ClientId: "attester", ClientName: "wallet", Jwks: js["A"]}, "wallet": {ClientId: "wallet", ClientName: "wallet2"}, "wallet2": {ClientId: "wallet2", ClientName: "wallet"}}}
	}
	auth := func(cs *faultClients, s string) (*clientv1.AuthenticateResponse, error) {
		return clientauthentication.ClientAttestation(cs, algs).Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: sp(atAttestation), ClientAssertion: sp(s)})
	}
	c.Case("tampered", func() string {
		good := attOf("wallet", keyA(), now+60, keyB()) + "~" + popOf("wallet", keyB(), now+60)
		if _, err := auth(store(), good); err != nil {
			return err.Error()
		}
		for i := range good {
			if i+1 == len(good) || good[i+1] == '.' || good[i+1] == '~' || good[i] == '~' {
				continue
			}
			c.Step()
			if _, err := auth(store(), tamper(good, i)); err == nil {
				return fmt.Sprintf("accepted with byte %d altered", i)
			}
		}
		return ""
	})
	for d1 := int64(-40); d1 <= 40; d1 += 4 {
		for d2 := int64(-40); d2 <= 40; d2 += 4 {
			d1, d2 := d1, d2
			c.Case(fmt.Sprintf("att exp %+d pop exp %+d", d1, d2), func() string {
				c.Step()
				res, err := auth(store(), attOf("wallet", keyA(), now+d1, keyB())+"~"+popOf("wallet", keyB(), now+d2))
				if m := authShape(res, err); m != "" {
					return m
				}
				if (d1 < 0 || d2 < 0) && err == nil {
					return "expired attestation accepted"
				}
				if d1 > 0 && d2 > 0 && err != nil {
					return err.Error()
				}
				return ""
			})
		}
	}
	for _, part := range []string{"attestation", "proof"} {
		for _, claim := range []string{"exp", "nbf"} {
			part, claim := part, claim
			extremeTimes(c, part+" "+claim, claim, func(n json.Number) error {
				att := map[string]any{"iss": "attester", "sub": "wallet", "exp": now + 60, "cnf": map[string]any{"jwk": jwkMap(keyB(), false, nil)}}
				pop := map[string]any{"iss": "wallet", "aud": "https://as", "jti": "j", "exp": now + 60}
				if part == "proof" {
					pop[claim] = n
				} else {
					att[claim] = n
				}
				h := map[string]any{"alg": "ES256", "typ": "jwt"}
				_, err := auth(store(), craft("ES256", keyA(), h, att)+"~"+craft("ES256", keyB(), h, pop))
				return err
			})
		}
	}
	var kinds []string
	for _, who := range []string{"the attester", "the client"} {
		for _, bad := range []string{"nothing", "attestation", "proof", "attester key", "no attester key"} {
			kinds = append(kinds, "members of "+who+", bad "+bad)
		}
	}
	authMembers(c, kinds, func(kind string, register func(*clientv1.Client)) (*clientv1.AuthenticateResponse, error, bool) {
		cs := store()
		bad := kind[strings.Index(kind, "bad ")+4:]
		ak, pk := keyA(), keyB()
		switch bad {
		case "attestation":
			ak = keyB()
		case "proof":
			pk = keyA()
		case "attester key":
			cs.m["attester"].Jwks = js["B"]
		case "no attester key":
			cs.m["attester"].Jwks = nil
		}
		who := "attester"
		if strings.Contains(kind, "the client") {
			who = "wallet"
		}
		register(cs.m[who])
		res, err := auth(cs, attOf("wallet", ak, now+60, keyB())+"~"+popOf("wallet", pk, now+60))
		return res, err, bad == "nothing"
	})
	textIDs(c, func(cs *faultClients, id, sub string) (*clientv1.AuthenticateResponse, error) {
		return auth(cs, attOf(sub, keyA(), now+60, keyB())+"~"+popOf(id, keyB(), now+60))
	}, func(id string) *clientv1.Client { return &clientv1.Client{ClientId: id} }, &clientv1.Client{ClientId: "attester", ClientName: "wallet", Jwks: js["A"]})
	// look-alike identifiers, all registered with the same key: the instance is the one
	// both parts name
	spellings := append([]string{"wallet"}, near("wallet")...)
	c.Bound("look-alike spellings", fmt.Sprint(len(spellings)-1))
	for _, sub := range spellings {
		for _, iss := range spellings {
			for _, registered := range []string{"all", "wallet", "others"} {
				sub, iss, registered := sub, iss, registered
				c.Case(fmt.Sprintf("attested %q, proof of %q, registered %s", sub, iss, registered), func() string {
					c.Step()
					cs := store()
					delete(cs.m, "wallet")
					for _, id := range spellings {
						if registered == "all" || (registered == "wallet") == (id == "wallet") {
							cs.m[id] = &clientv1.Client{ClientId: id}
						}
					}
					res, err := auth(cs, cached("n"+sub, func() string { return attOf(sub, keyA(), now+60, keyB()) })+"~"+cached("m"+iss, func() string { return popOf(iss, keyB(), now+60) }))
					if m := authShape(res, err); m != "" {
						return m
					}
					_, known := cs.m[iss]
					switch ok := iss == sub && known; {
					case err == nil && !ok:
						return "accepted as " + res.Client.ClientId
					case err != nil && ok:
						return "rejected: " + err.Error()
					case err == nil && res.Client.ClientId != iss:
						return "authenticated as " + res.Client.ClientId
					}
					return ""
				})
			}
		}
	}
	for _, iss := range near("attester") {
		iss := iss
		for _, registered := range []bool{false, true} {
			registered := registered
			c.Case(fmt.Sprintf("attester %q, registered %v", iss, registered), func() string {
				c.Step()
				cs := store()
				cs.m["attester"].Jwks = js["A"]
				if registered {
					cs.m[iss] = &clientv1.Client{ClientId: iss, Jwks: js["B"]}
				}
				for _, by := range []any{keyA(), keyB()} {
					att := craft("ES256", by, map[string]any{"alg": "ES256"}, map[string]any{"iss": iss, "sub": "wallet", "exp": now + 60, "jti": "aj", "iat": now, "cnf": map[string]any{"jwk": jwkMap(keyB(), false, nil)}})
					_, err := auth(cs, att+"~"+popOf("wallet", keyB(), now+60))
					if ok := registered && by == any(keyB()); (err == nil) != ok {
						return fmt.Sprintf("accepted=%v, by the key of the look-alike: %v (%v)", err == nil, by == any(keyB()), err)
					}
				}
				return ""
			})
		}
	}
	for _, typ := range near(atAttestation) {
		typ := typ
		c.Case(fmt.Sprintf("type %q", typ), func() string {
			c.Step()
			res, err := clientauthentication.ClientAttestation(store(), algs).Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: sp(typ),
				ClientAssertion: sp(attOf("wallet", keyA(), now+60, keyB()) + "~" + popOf("wallet", keyB(), now+60))})
			if m := authShape(res, err); m != "" {
				return m
			}
			if err == nil {
				return "accepted"
			}
			return ""
		})
	}
	// the separator of the two parts; white space around a JWS is not part of it (go-jose)
	for _, sep := range append(near("~"), "", "~~", ".", "~~~") {
		sep := sep
		if strings.TrimSpace(sep) == "~" {
			continue
		}
		c.Case(fmt.Sprintf("separator %q", sep), func() string {
			c.Step()
			for _, tail := range []string{"", sep, "~"} {
				for _, head := range []string{"", sep, "~"} {
					res, err := auth(store(), head+attOf("wallet", keyA(), now+60, keyB())+sep+popOf("wallet", keyB(), now+60)+tail)
					if m := authShape(res, err); m != "" {
						return m
					}
					if err == nil {
						return "accepted"
					}
				}
			}
			return ""
		})
	}
	depth := c.Q(4, 5)
	c.Bound("history depth", fmt.Sprint(depth))
	c.Histories("attestations", func(h *x.H) string {
		cs := store()
		p := clientauthentication.ClientAttestation(cs, algs)
		atts := []struct {
			sub, signer, cnf string
			exp              int64
		}{{"wallet", "A", "B", 60}, {"wallet", "A", "C", 60}, {"wallet2", "A", "B", 60}, {"wallet", "B", "B", 60}}
		keyOf := map[string]any{"A": keyA(), "B": keyB(), "C": keyC()}
		cur := "A"
		present := map[string]bool{"wallet": true, "wallet2": true, "attester": true}
		for d := 0; d < depth; d++ {
			c.Step()
			c.State(fmt.Sprint(cur, present, rt.Now().Unix()-now))
			switch h.Choose(5) {
			case 0:
				a := atts[h.Choose(len(atts))]
				pk, pi := []string{"B", "C"}[h.Choose(2)], []string{"wallet", "wallet2"}[h.Choose(2)]
				h.Label(fmt.Sprintf("attestation of %s by %s for key %s, proof of %s by %s", a.sub, a.signer, a.cnf, pi, pk))
				res, err := p.Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: sp(atAttestation),
					ClientAssertion: sp(cached("a"+a.sub+a.signer+a.cnf, func() string { return attOf(a.sub, keyOf[a.signer], now+60, keyOf[a.cnf]) }) + "~" +
						cached(fmt.Sprint("p", pi, pk, rt.Now().Unix()), func() string { return popOf(pi, keyOf[pk], rt.Now().Unix()+30) }))})
				if m := authShape(res, err); m != "" {
					return m
				}
				ok := a.signer == cur && present["attester"] && present[pi] && pk == a.cnf && pi == a.sub && rt.Now().Unix() < now+60
				if (err == nil) != ok {
					return fmt.Sprintf("authenticated=%v (%v)", err == nil, err)
				}
				if err == nil && res.Client.ClientId != a.sub {
					return "authenticated as " + res.Client.ClientId
				}
			case 1:
				h.Label("attester key becomes B")
				cs.m["attester"] = &clientv1.Client{ClientId: "attester", ClientName: "wallet", Jwks: js["B"]}
				cur, present["attester"] = "B", true
			case 2:
				h.Label("attester removed")
				delete(cs.m, "attester")
				present["attester"] = false
			case 3:
				h.Label("wallet removed")
				delete(cs.m, "wallet")
				present["wallet"] = false
			case 4:
				h.Label("+61s")
				rt.Advance(61 * time.Second)
			}
		}
		return ""
	})
	h0 := map[string]any{"alg": "ES256", "typ": "jwt"}
	headerKeys(c, "attestation", h0, []string{"kA"}, func(h map[string]any) error {
		cs := store()
		cs.m["attester"].Jwks = js["sigA"]
		_, err := auth(cs, craft("ES256", keyC(), h, map[string]any{"iss": "attester", "sub": "wallet", "exp": now + 60, "cnf": map[string]any{"jwk": jwkMap(keyB(), false, nil)}})+"~"+
			cached("hp", func() string { return popOf("wallet", keyB(), now+60) }))
		return err
	})
	for _, kid := range []string{"", "kB"} {
		kid := kid
		headerKeys(c, fmt.Sprintf("proof for key %q", kid), h0, []string{"kB"}, func(h map[string]any) error {
			att := cached("ha"+kid, func() string {
				k := jwkMap(keyB(), false, nil)
				if kid != "" {
					k["kid"] = kid
				}
				return craft("ES256", keyA(), h0, map[string]any{"iss": "attester", "sub": "wallet", "exp": now + 60, "cnf": map[string]any{"jwk": k}})
			})
			_, err := auth(store(), att+"~"+craft("ES256", keyC(), h, map[string]any{"iss": "wallet", "aud": "https://as", "jti": "j", "exp": now + 60}))
			return err
		})
	}
	// every order of the times of both parts
	for _, part := range []string{"attestation", "proof"} {
		for _, iat := range []int64{-3600, -1, 0, 60, 7200, -1 << 40} {
			for _, nbf := range []int64{-3600, -1, 0, 60, 3600, 7200, -1 << 40} {
				for _, exp := range []int64{-3600, -1, 60, 3600, 7200} {
					part, iat, nbf, exp := part, iat, nbf, exp
					c.Case(fmt.Sprintf("%s iat %+d nbf %+d exp %+d", part, iat, nbf, exp), func() string {
						c.Step()
						set := func(m map[string]any) map[string]any {
							m["exp"] = now + exp
							if iat != -1<<40 {
								m["iat"] = now + iat
							}
							if nbf != -1<<40 {
								m["nbf"] = now + nbf
							}
							return m
						}
						att := map[string]any{"iss": "attester", "sub": "wallet", "exp": now + 60, "cnf": map[string]any{"jwk": jwkMap(keyB(), false, nil)}}
						pop := map[string]any{"iss": "wallet", "aud": "https://as", "jti": "j", "exp": now + 60}
						if part == "proof" {
							set(pop)
						} else {
							set(att)
						}
						_, err := auth(store(), craft("ES256", keyA(), h0, att)+"~"+craft("ES256", keyB(), h0, pop))
						switch {
						case err == nil && (exp < 0 || nbf > 0):
							return "accepted outside its validity"
						case err != nil && exp > 0 && nbf <= 0 && iat <= 0:
							return "refused: " + err.Error()
						}
						return ""
					})
				}
			}
		}
	}
	manyKeys(c, "attestation")
}
