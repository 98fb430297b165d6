package checks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/go-jose/go-jose/v4"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/storage"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C16", Run: c16,
		Rule: "every combination of at most k deviations from a valid client assertion, client registration and storage answer, against an independent oracle; every byte of the assertion altered; every history of key rotations"})
}

const (
	atBearer      = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
	atAttestation = "urn:ietf:params:oauth:client-assertion-type:jwt-client-attestation"
)

// faultClients is a client storage which can fail at its n-th call.
type faultClients struct {
	m     map[string]*clientv1.Client
	calls int
	fail  int // n-th call fails (1-based)
}

var errDown = errors.New("storage down")

func (f *faultClients) Get(_ context.Context, id string) (*clientv1.Client, error) {
	f.calls++
	if f.fail == f.calls {
		return nil, errDown
	}
	if x, ok := f.m[id]; ok {
		return x, nil
	}
	return nil, storage.ErrNotFound
}

func (f *faultClients) GetByName(_ context.Context, n string) (*clientv1.Client, error) {
	return nil, storage.ErrNotFound
}

// authShape: exactly one of a client (no error) and an error (both to the caller and
// to the client).
func authShape(res *clientv1.AuthenticateResponse, err error) string {
	switch {
	case res == nil && err == nil:
		return "neither a response nor an error"
	case err == nil && res.Client == nil:
		return "success without client"
	case err == nil && res.Error != nil:
		return "success with a protocol error"
	case err != nil && res != nil && res.Client != nil:
		return "a client is returned with an error"
	case err != nil && (res == nil || res.Error == nil || res.Error.Err == ""):
		return "failure without protocol error"
	}
	return ""
}

func jwksVariants() map[string][]byte {
	a, b := jwkMap(keyA(), false, nil), jwkMap(keyB(), false, nil)
	encA := jwkMap(keyA(), false, map[string]any{"use": "enc"})
	sigA := jwkMap(keyA(), false, map[string]any{"use": "sig", "kid": "kA", "alg": "ES256"})
	return map[string][]byte{
		"A": jwks(a), "sigA": jwks(sigA), "B": jwks(b), "B,A": jwks(b, a), "A,B": jwks(a, b), "encA": jwks(encA), "encA,B": jwks(encA, b), "encB,A": jwks(jwkMap(keyB(), false, map[string]any{"use": "enc"}), a),
		"384,A": jwks(jwkMap(key384(), false, nil), a), "rsa,A": jwks(jwkMap(keyRSA(), false, nil), a), "sym": jwks(jwkMap(keySym, true, nil)), "none": nil, "empty": jwks(), "bad": []byte("{"), "null": []byte("null"), "privA": jwks(jwkMap(keyA(), true, nil)),
	}
}

func c16(c *x.Ctx) {
	algs := []jose.SignatureAlgorithm{jose.ES256, jose.ES384}
	now := rt.Base.Unix()
	js := jwksVariants()
	hasA := map[string]bool{"A": true, "sigA": true, "B,A": true, "A,B": true, "encB,A": true, "384,A": true, "rsa,A": true, "privA": true}
	hasB := map[string]bool{"B": true, "B,A": true, "A,B": true, "encA,B": true}
	names := []string{"A", "sigA", "B", "B,A", "A,B", "encA", "encA,B", "encB,A", "384,A", "rsa,A", "sym", "none", "empty", "bad", "null", "privA"}
	dims := []dim{
		{"type", []string{atBearer, "<nil>", "", atAttestation, "urn:ietf:params:oauth:client-assertion-type:saml2-bearer", strings.ToUpper(atBearer)}},
		{"jwks", names},
		{"sign", []string{"A", "B", "none", "garbage", "swapped", "unsigned", "HS256-pub"}},
		{"alg", []string{"ES256", "none", "HS256", "ES384"}},
		{"iss", []string{"k1", "k2", "ghost", "", drop, "<num>"}},
		{"sub", []string{"k1", "k2", "ghost", "", drop}},
		{"aud", []string{"https://as", "", drop}},
		{"jti", []string{"j", "", drop}},
		{"exp", []string{"60", "-60", "-3600", drop, "<zero>", "<neg>", "<str>", "<ms>"}},
		{"kid", []string{drop, "kA", "other"}},
		{"client_id", []string{"<nil>", "k1", "k2", ""}},
		{"storage", []string{"ok", "error"}},
		{"k2jwks", []string{"B", "A", "none"}},
		{"assertion", []string{"ok", "<nil>", "empty", "two-parts", "text"}},
		{"iat", []string{"now", drop, "0", "future", "past", "<str>"}},
		{"nbf", []string{drop, "past", "future"}},
		{"typ", []string{drop, "JWT", "dpop+jwt"}},
	}
	k := c.Q(3, 4)
	c.Bound("simultaneous deviations", fmt.Sprint(k))
	deviations(dims, k, func(pick []int, key string) {
		if c.Skip() {
			c.SkipN()
			return
		}
		v := func(name string) string {
			for i, d := range dims {
				if d.name == name {
					return d.vals[pick[i]]
				}
			}
			panic(name)
		}
		c.Case("assertion "+key, func() string {
			c.Step()
			c.State(key)
			claims := map[string]any{}
			if at, ok := map[string]any{"now": now, "0": 0, "future": now + 3600, "past": now - 1e6, "<str>": "yesterday"}[v("iat")]; ok {
				claims["iat"] = at
			}
			if v("nbf") != drop {
				claims["nbf"] = now + map[string]int64{"past": -60, "future": 60}[v("nbf")]
			}
			for _, n := range []string{"iss", "sub", "aud", "jti"} {
				switch s := v(n); s {
				case drop:
				case "<num>":
					claims[n] = 7
				default:
					claims[n] = s
				}
			}
			expOK := false
			switch s := v("exp"); s {
			case drop:
			case "<zero>":
				claims["exp"] = 0
			case "<neg>":
				claims["exp"] = -1
			case "<str>":
				claims["exp"] = fmt.Sprint(now + 60)
			case "<ms>":
				claims["exp"] = now * 1000
				expOK = true
			default:
				var d int64
				fmt.Sscan(s, &d)
				claims["exp"] = now + d
				expOK = d > 0
			}
			header := map[string]any{"alg": v("alg")}
			if v("typ") != drop {
				header["typ"] = v("typ")
			}
			if v("kid") != drop {
				header["kid"] = v("kid")
			}
			var raw, signer string
			switch v("sign") {
			case "A":
				raw, signer = craft("ES256", keyA(), header, claims), "A"
			case "B":
				raw, signer = craft("ES256", keyB(), header, claims), "B"
			case "none":
				raw = craft("none", nil, header, claims)
			case "garbage":
				raw = craft("none", nil, header, claims) + strings.Repeat("A", 86)
			case "swapped":
				good := strings.Split(craft("ES256", keyA(), header, claims), ".")
				claims["x"] = 1
				bad := strings.Split(craft("ES256", keyA(), header, claims), ".")
				raw = good[0] + "." + bad[1] + "." + good[2]
			case "unsigned":
				// the JSON serialization, signed by a key of nobody
				p := strings.Split(craft("ES256", keyC(), header, claims), ".")
				raw = fmt.Sprintf(`{"payload":%q,"protected":%q,"signature":%q}`, p[1], p[0], p[2])
			case "HS256-pub":
				header["alg"] = "HS256"
				raw = craft("HS256", jwks(jwkMap(keyA(), false, nil)), header, claims)
			}
			aOK := v("assertion") == "ok"
			req := &clientv1.AuthenticateRequest{}
			if v("type") != "<nil>" {
				req.ClientAssertionType = sp(v("type"))
			}
			switch v("assertion") {
			case "ok":
				req.ClientAssertion = sp(raw)
			case "empty":
				req.ClientAssertion = sp("")
			case "two-parts":
				req.ClientAssertion = sp(raw[:strings.LastIndexAny(raw, ".,")])
			case "text":
				req.ClientAssertion = sp("hello")
			}
			if v("client_id") != "<nil>" {
				req.ClientId = sp(v("client_id"))
			}
			cs := &faultClients{m: map[string]*clientv1.Client{
				"k1": {ClientId: "k1", ClientName: "k2", Jwks: js[v("jwks")]}, "k2": {ClientId: "k2", ClientName: "k1", Jwks: js[v("k2jwks")]}, "": {ClientId: "", Jwks: js["A,B"]}}}
			if v("storage") == "error" {
				cs.fail = 1
			}
			res, err := clientauthentication.PrivateKeyJWT(cs, algs).Authenticate(bg, req)
			set := v("jwks")
			if v("iss") == "k2" {
				set = v("k2jwks")
			}
			keyOK := signer == "A" && hasA[set] || signer == "B" && hasB[set]
			ok := v("type") == atBearer && aOK && keyOK && v("alg") == "ES256" && (v("iss") == "k1" || v("iss") == "k2") && v("iss") == v("sub") &&
				v("aud") == "https://as" && v("jti") == "j" && expOK && v("storage") == "ok"
			// don't care: a client_id contradicting the assertion, a kid naming another key,
			// a private key registered as client key, when it says it was made or may be used
			dont := v("client_id") != "<nil>" && v("client_id") != v("iss") || v("kid") != drop || set == "privA" || v("iat") != "now" || v("nbf") == "future" || v("typ") == "dpop+jwt"
			c.Outcome(fmt.Sprintf("authenticated=%v", err == nil))
			if m := authShape(res, err); m != "" {
				return m
			}
			switch {
			case err == nil && !ok:
				return "an invalid assertion was accepted for " + res.Client.ClientId
			case err != nil && ok && !dont:
				return "a valid assertion was rejected: " + err.Error()
			case err == nil && res.Client.ClientId != v("iss"):
				return "authenticated as " + res.Client.ClientId
			}
			if err != nil && v("storage") == "error" && cs.calls > 0 && res.Error.Err != "server_error" {
				return "a storage failure is reported as " + res.Error.Err
			}
			return ""
		})
	})
	base := func() map[string]any {
		return map[string]any{"iss": "k1", "sub": "k1", "aud": "https://as", "jti": "j", "exp": now + 60, "iat": now}
	}
	store := func() *faultClients {
		return &faultClients{m: map[string]*clientv1.Client{"k1": {ClientId: "k1", ClientName: "k2", Jwks: js["A"]}, "k2": {ClientId: "k2", ClientName: "k1", Jwks: js["B"]}}}
	}
	auth := func(cs storage.ClientReader, raw string) (*clientv1.AuthenticateResponse, error) {
		return clientauthentication.PrivateKeyJWT(cs, algs).Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: sp(atBearer), ClientAssertion: sp(raw)})
	}
	c.Case("tampered", func() string {
		good := craft("ES256", keyA(), map[string]any{"alg": "ES256"}, base())
		if _, err := auth(store(), good); err != nil {
			return err.Error()
		}
		for i := range good {
			if i+1 == len(good) || good[i+1] == '.' {
				continue
			}
			c.Step()
			if _, err := auth(store(), tamper(good, i)); err == nil {
				return fmt.Sprintf("accepted with byte %d altered", i)
			}
		}
		return ""
	})
	for d := int64(-300); d <= 300; d++ {
		d := d
		c.Case(fmt.Sprintf("exp %+d", d), func() string {
			c.Step()
			cl := base()
			cl["exp"] = now + d
			_, err := auth(store(), craft("ES256", keyA(), map[string]any{"alg": "ES256"}, cl))
			if d < 0 && err == nil {
				return "expired assertion accepted"
			}
			if d > 0 && err != nil {
				return err.Error()
			}
			return ""
		})
	}
	extremeTimes(c, "exp", "exp", func(n json.Number) error {
		cl := base()
		cl["exp"] = n
		_, err := auth(store(), craft("ES256", keyA(), map[string]any{"alg": "ES256"}, cl))
		return err
	})
	var kinds []string
	for _, set := range []string{"A", "B", "empty", "none", "text"} {
		for _, signer := range []string{"A", "B", "none", "garbage"} {
			kinds = append(kinds, set+" registered, "+signer+" signs")
		}
	}
	authMembers(c, kinds, func(kind string, register func(*clientv1.Client)) (*clientv1.AuthenticateResponse, error, bool) {
		set, rest, _ := strings.Cut(kind, " registered, ")
		signer := strings.TrimSuffix(rest, " signs")
		cs := store()
		cs.m["k1"].Jwks = map[string][]byte{"A": js["A"], "B": js["B"], "empty": []byte(`{"keys":[]}`), "none": nil, "text": []byte("text")}[set]
		register(cs.m["k1"])
		h := map[string]any{"alg": "ES256"}
		var raw string
		switch signer {
		case "A":
			raw = craft("ES256", keyA(), h, base())
		case "B":
			raw = craft("ES256", keyB(), h, base())
		default:
			raw = craft("none", nil, h, base())
			if signer == "garbage" {
				raw += strings.Repeat("A", 86)
			}
		}
		res, err := auth(cs, raw)
		return res, err, set == signer
	})
	textIDs(c, func(cs *faultClients, id, sub string) (*clientv1.AuthenticateResponse, error) {
		cl := base()
		cl["iss"], cl["sub"] = id, sub
		return auth(cs, craft("ES256", keyA(), map[string]any{"alg": "ES256"}, cl))
	}, func(id string) *clientv1.Client { return &clientv1.Client{ClientId: id, Jwks: js["A"]} })
	// look-alike identifiers: every spelling is another client, and iss and sub name the
	// same one only when they are the same
	spellings := append([]string{"k1"}, near("k1")...)
	c.Bound("look-alike spellings", fmt.Sprint(len(spellings)-1))
	for _, iss := range spellings {
		for _, sub := range spellings {
			for _, registered := range []string{"all", "k1", "others"} {
				iss, sub, registered := iss, sub, registered
				c.Case(fmt.Sprintf("iss %q, sub %q, registered %s", iss, sub, registered), func() string {
					c.Step()
					cs := &faultClients{m: map[string]*clientv1.Client{}}
					for _, id := range spellings {
						if registered == "all" || (registered == "k1") == (id == "k1") {
							cs.m[id] = &clientv1.Client{ClientId: id, Jwks: js["A"]}
						}
					}
					cl := base()
					cl["iss"], cl["sub"] = iss, sub
					res, err := auth(cs, craft("ES256", keyA(), map[string]any{"alg": "ES256"}, cl))
					if m := authShape(res, err); m != "" {
						return m
					}
					_, known := cs.m[iss]
					switch ok := iss == sub && known; {
					case err == nil && !ok:
						return "accepted as " + res.Client.ClientId
					case err != nil && ok:
						return "rejected: " + err.Error()
					case err == nil && res.Client.ClientId != iss:
						return "authenticated as " + res.Client.ClientId
					}
					return ""
				})
			}
		}
	}
	for _, typ := range near(atBearer) {
		typ := typ
		c.Case(fmt.Sprintf("type %q", typ), func() string {
			c.Step()
			res, err := clientauthentication.PrivateKeyJWT(store(), algs).Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: sp(typ),
				ClientAssertion: sp(craft("ES256", keyA(), map[string]any{"alg": "ES256"}, base()))})
			if m := authShape(res, err); m != "" {
				return m
			}
			if err == nil {
				return "accepted"
			}
			return ""
		})
	}
	// a client of the same keys for every spelling of the algorithm
	for _, alg := range append(near("ES256"), near("none")...) {
		alg := alg
		c.Case(fmt.Sprintf("alg %q", alg), func() string {
			c.Step()
			for _, sign := range []string{"ES256", "none"} {
				if _, err := auth(store(), craft(sign, keyA(), map[string]any{"alg": alg}, base())); err == nil {
					return "accepted, signed with " + sign
				}
			}
			return ""
		})
	}
	// algorithms: exactly the configured ones
	type ka struct {
		alg string
		key any
	}
	all := []ka{{"ES256", keyA()}, {"ES384", key384()}, {"RS256", keyRSA()}, {"PS256", keyRSA()}, {"EdDSA", keyEd()}, {"HS256", keySym}, {"none", nil}}
	for _, k := range all {
		for mask := 0; mask < 32; mask++ {
			k, mask := k, mask
			c.Case(fmt.Sprintf("signed with %s, supported %05b", k.alg, mask), func() string {
				c.Step()
				var sup []jose.SignatureAlgorithm
				ok := false
				for i, a := range algsAll {
					if mask&(1<<i) != 0 {
						sup = append(sup, a)
						ok = ok || string(a) == k.alg
					}
				}
				cs := store()
				ks := []map[string]any{}
				for _, o := range all {
					if o.key != nil {
						_, isPriv := o.key.([]byte)
						ks = append(ks, jwkMap(o.key, isPriv, nil))
					}
				}
				cs.m["k1"].Jwks = jwks(ks...)
				res, err := clientauthentication.PrivateKeyJWT(cs, sup).Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: sp(atBearer),
					ClientAssertion: sp(craft(k.alg, k.key, map[string]any{"alg": k.alg}, base()))})
				if m := authShape(res, err); m != "" {
					return m
				}
				if (err == nil) != ok {
					return fmt.Sprintf("accepted=%v (%v)", err == nil, err)
				}
				return ""
			})
		}
	}
	// key rotation, removal, expiry
	depth := c.Q(5, 6)
	c.Bound("history depth", fmt.Sprint(depth))
	c.Histories("rotation", func(h *x.H) string {
		cs := store()
		p := clientauthentication.PrivateKeyJWT(cs, algs)
		var exp = map[string]int64{}
		mk := func(id string, key any, n string) string {
			cl := base()
			cl["iss"], cl["sub"], cl["exp"] = id, id, rt.Now().Unix()+60
			return craft("ES256", key, map[string]any{"alg": "ES256"}, cl)
		}
		// one assertion of each key, per client, made at the start
		as := map[string]string{"k1/A": mk("k1", keyA(), "A"), "k1/B": mk("k1", keyB(), "B"), "k2/B": mk("k2", keyB(), "B")}
		for n := range as {
			exp[n] = rt.Now().Unix() + 60
		}
		cur := map[string]string{"k1": "A", "k2": "B"}
		for d := 0; d < depth; d++ {
			c.Step()
			c.State(fmt.Sprint(cur, rt.Now().Unix()-now))
			switch ch := h.Choose(8); ch {
			case 0, 1, 2:
				n := []string{"k1/A", "k1/B", "k2/B"}[ch]
				h.Label("authenticate " + n)
				res, err := p.Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: sp(atBearer), ClientAssertion: sp(as[n])})
				id, key := n[:2], n[3:]
				ok := strings.Contains(cur[id], key) && rt.Now().Unix() < exp[n]
				if m := authShape(res, err); m != "" {
					return m
				}
				if (err == nil) != ok {
					return fmt.Sprintf("authenticated=%v with keys %q (%v)", err == nil, cur[id], err)
				}
			case 3, 4, 5:
				set := []string{"A", "B", "A,B"}[ch-3]
				h.Label("k1 keys become " + set)
				cs.m["k1"] = &clientv1.Client{ClientId: "k1", ClientName: "k2", Jwks: js[set]}
				cur["k1"] = set
			case 6:
				h.Label("k1 removed")
				delete(cs.m, "k1")
				cur["k1"] = ""
			case 7:
				h.Label("+31s")
				rt.Advance(31 * time.Second)
			}
		}
		return ""
	})
	headerKeys(c, "assertion", map[string]any{"alg": "ES256"}, []string{"kA"}, func(h map[string]any) error {
		cs := store()
		cs.m["k1"].Jwks = js["sigA"]
		_, err := auth(cs, craft("ES256", keyC(), h, base()))
		return err
	})
	manyKeys(c, "private_key_jwt")
}
