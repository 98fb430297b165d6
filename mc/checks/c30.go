package checks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/go-jose/go-jose/v4"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/client"
	"zntr.io/solid/server/clientauthentication"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C30", Run: c30,
		Rule: "every history of key set requests, key rotations, server failures and clock steps to the depth against a reference cache; every status code x body x transport failure for every endpoint; the product of introspection response fields; every request sent compared field by field"})
}

// fakeServer answers the requests of the client in process.
type fakeServer struct {
	mu     sync.Mutex
	status map[string]int
	body   map[string]string
	err    map[string]error
	head   http.Header     // headers of every answer
	cut    map[string]bool // the connection breaks at the end of the body
	log    []string
	forms  []url.Values
	heads  []http.Header
	opened int
	closed int
}

const srvBase = "https://as.example.com/tenant"

func newServer() *fakeServer {
	s := &fakeServer{status: map[string]int{}, body: map[string]string{}, err: map[string]error{}, cut: map[string]bool{}, head: http.Header{}}
	s.body["/tenant/.well-known/oauth-authorization-server"] = metaJSON(srvBase)
	s.body["/keys"] = keysJSON(0, "k1")
	return s
}

func metaJSON(iss string) string {
	return fmt.Sprintf(`{"issuer":%q,"jwks_uri":"https://k.example.com/keys","token_endpoint":"https://t.example.com/token?x=1","introspection_endpoint":"https://i.example.com/introspect"}`, iss)
}

func keysJSON(exp uint64, kids ...string) string {
	var l []map[string]any
	for _, k := range kids {
		l = append(l, jwkMap(keyA(), false, map[string]any{"kid": k}))
	}
	b, _ := json.Marshal(map[string]any{"keys": l, "exp": exp})
	return string(b)
}

type brokenBody struct {
	r    io.Reader
	cut  bool
	done func()
}

func (b *brokenBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.cut {
		return n, errors.New("connection reset")
	}
	return n, err
}
func (b *brokenBody) Close() error { b.done(); return nil }

func (s *fakeServer) RoundTrip(r *http.Request) (*http.Response, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	p := r.URL.Path
	s.log = append(s.log, r.Method+" "+r.URL.String())
	s.heads = append(s.heads, r.Header.Clone())
	var form url.Values
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		r.Body.Close()
		form, _ = url.ParseQuery(string(b))
	}
	s.forms = append(s.forms, form)
	if e := s.err[p]; e != nil {
		return nil, e
	}
	st := s.status[p]
	body, ok := s.body[p]
	if st == 0 {
		st = 200
		if !ok {
			st = 404
		}
	}
	s.opened++
	return &http.Response{StatusCode: st, Status: fmt.Sprint(st), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: s.head.Clone(), Request: r, ContentLength: -1,
		Body: &brokenBody{strings.NewReader(body), s.cut[p], func() { s.mu.Lock(); s.closed++; s.mu.Unlock() }}}, nil
}

// onServer runs f with every http request of the process answered by s.
func onServer(s *fakeServer, f func() string) string {
	od, oc := http.DefaultTransport, http.DefaultClient.Transport
	http.DefaultTransport, http.DefaultClient.Transport = s, nil
	defer func() { http.DefaultTransport, http.DefaultClient.Transport = od, oc }()
	return f()
}

func c30opts() *client.Options {
	b, _ := json.Marshal(jwkMap(key384(), true, map[string]any{"kid": "ck"}))
	return &client.Options{Audience: "urn:api", ClientID: "c1", RedirectURI: redir1, Scopes: []string{"a", "b"}, JWK: b}
}

func kidsOf(s *jose.JSONWebKeySet) string {
	if s == nil {
		return "none"
	}
	var l []string
	for _, k := range s.Keys {
		l = append(l, k.KeyID)
	}
	return strings.Join(l, ",")
}

// kidsAt: every rotation changes the keys, and most of them the number of keys.
func kidsAt(gen int) []string {
	var l []string
	for i := 0; i < []int{1, 3, 1, 2, 2}[gen%5]; i++ {
		l = append(l, fmt.Sprintf("k%d-%d", gen, i))
	}
	return l
}

func c30(c *x.Ctx) {
	now := rt.Base.Unix()
	statuses := []int{200, 201, 204, 202, 206, 300, 304, 400, 401, 403, 404, 429, 500, 502, 503}
	junk := []string{"", "null", "[]", "1", `"x"`, "{", "<html>", `{"error":"invalid_client"}`, `{"err":"invalid_client","error_description":"no"}`, "{}x", "\x00"}

	// construction: metadata and keys
	metas := append([]string{metaJSON(srvBase)}, junk...)
	// partially readable metadata: a usable jwks_uri beside a member of the wrong type
	for _, bad := range []string{`"issuer":5`, `"token_endpoint":["https://t"]`, `"scopes_supported":"a"`, `"introspection_endpoint":{}`} {
		metas = append(metas, `{"jwks_uri":"https://k.example.com/keys",`+bad+`}`, `{`+bad+`,"jwks_uri":"https://k.example.com/keys"}`)
	}
	metas = append(metas, `{"jwks_uri":"https://k.example.com/keys"`, `{"jwks_uri":"https://k.example.com/keys",`)
	metas = append(metas, `{"jwks_uri":""}`, `{"jwks_uri":"://"}`, `{"jwks_uri":1}`, "{}", `{"jwks_uri":"ftp\u0000://x"}`)
	type keyDoc struct {
		doc string
		ok  bool
	}
	keys := []keyDoc{{keysJSON(0, "k1"), true}, {keysJSON(uint64(now+60), "k1", "k2"), true}, {keysJSON(uint64(now-60), "k1"), false}, {keysJSON(1, "k1"), false}, {`{"keys":[]}`, false}, {`{"keys":null}`, false}, {`{}`, false}, {`{"exp":5}`, false},
		{`{"keys":[null]}`, false}, {`{"keys":[{}]}`, false}, {`{"keys":[{"kty":"EC"}]}`, false}, {`{"keys":1}`, false}, {strings.Replace(keysJSON(0, "k1"), `"exp":0`, `"exp":"x"`, 1), false}, {strings.Replace(keysJSON(0, "k1"), `"exp":0`, `"exp":-1`, 1), false}}
	for _, j := range junk {
		keys = append(keys, keyDoc{j, false})
	}
	for mi, m := range metas {
		for ki, k := range keys {
			for _, mst := range statuses {
				for _, kst := range []int{200, 204, 400, 404, 500} {
					for _, fail := range []string{"", "meta", "keys", "meta body", "keys body", "canceled"} {
						if (mi > 0 && ki > 0 && (mst != 200 || kst != 200)) || (fail != "" && (mi > 0 || ki > 1 || mst != 200 || kst != 200)) {
							continue
						}
						m, k, mst, kst, fail := m, k, mst, kst, fail
						if c.Skip() {
							c.SkipN()
							continue
						}
						c.Case(fmt.Sprintf("connect metadata %d/%d keys %d/%d fault %q", mi, mst, ki, kst, fail), func() string {
							s := newServer()
							mp, kp := "/tenant/.well-known/oauth-authorization-server", "/keys"
							s.body[mp], s.body[kp] = m, k.doc
							s.status[mp], s.status[kp] = mst, kst
							ctx := context.Context(bg)
							want := mi == 0 && mst == 200 && k.ok && kst == 200 && fail == ""
							switch fail {
							case "meta":
								s.err[mp] = errors.New("refused")
							case "keys":
								s.err[kp] = errors.New("refused")
							case "meta body":
								s.body[mp], s.cut[mp] = m[:len(m)/2], true
							case "keys body":
								s.body[kp], s.cut[kp] = k.doc[:len(k.doc)/2], true
							case "canceled":
								cc, cancel := context.WithCancel(bg)
								cancel()
								ctx = cc
							}
							return onServer(s, func() string {
								cl, err := client.HTTP(ctx, srvBase, c30opts())
								c.Step()
								c.Outcome(fmt.Sprintf("connect ok=%v", err == nil))
								c.State(fmt.Sprint("connect", mst, kst, fail, k.ok, mi == 0))
								if mst == 200 && (fail == "" || fail == "keys") && len(s.log) > 0 && s.log[0] != "GET "+srvBase+"/.well-known/oauth-authorization-server" {
									return "the metadata is read from " + s.log[0]
								}
								if (err == nil) != want {
									return fmt.Sprintf("connected=%v, want %v: %v", err == nil, want, err)
								}
								if err != nil {
									if cl != nil {
										return "a failed connection returns a client"
									}
									return ""
								}
								if cl.Issuer() != srvBase || cl.ClientID() != "c1" || cl.Audience() != "urn:api" || cl.ServerMetadata().GetTokenEndpoint() != "https://t.example.com/token?x=1" {
									return "the client does not report what it was built with"
								}
								return ""
							})
						})
					}
				}
			}
		}
	}
	c30issuers(c)
	c30spellings(c)
	c30sizes(c)
	c30keys(c)
	c30again(c, statuses, junk)
	c30endpoints(c, statuses, junk)
	c30introspection(c)
	c30assertion(c)
}

// c30issuers: an issuer which is no address gives an error and no client.
func c30issuers(c *x.Ctx) {
	for _, iss := range []string{"", "://", "https://[", "https://as.example.com/%zz", "\x7f", "https://as.example.com/ten\nant", "as.example.com/tenant", "https://other.example.com/x"} {
		for _, nilCtx := range []bool{false, true} {
			iss, ctx := iss, context.Context(bg)
			if nilCtx {
				ctx = nil
			}
			c.Case(fmt.Sprintf("connect to %q nil context %v", iss, nilCtx), func() string {
				s := newServer()
				return onServer(s, func() string {
					cl, err := client.HTTP(ctx, iss, c30opts())
					c.Step()
					c.State("issuer " + iss)
					if err == nil || cl != nil {
						return fmt.Sprintf("connected to %q: client=%v err=%v", iss, cl != nil, err)
					}
					return ""
				})
			})
		}
	}
	// calls without a context on a connected client
	for _, op := range []string{"token", "introspect", "keys"} {
		op := op
		c.Case("nil context at "+op, func() string {
			s := newServer()
			s.body["/keys"] = keysJSON(0, "k1") // never cached
			s.body["/token"], s.body["/introspect"] = `{"access_token":"at"}`, `{"active":true}`
			return onServer(s, func() string {
				cl, err := client.HTTP(bg, srvBase, c30opts())
				if err != nil {
					return err.Error()
				}
				var nilCtx context.Context
				var got bool
				switch op {
				case "token":
					t, e := cl.ClientCredentials(nilCtx, "a")
					got, err = t != nil, e
				case "introspect":
					t, e := cl.Introspect(nilCtx, "a", "t")
					got, err = t != nil, e
				case "keys":
					t, _, e := cl.PublicKeys(nilCtx)
					got, err = t != nil, e
				}
				c.Step()
				if got || err == nil {
					return fmt.Sprintf("result=%v error=%v", got, err)
				}
				return ""
			})
		})
	}
}

// c30spellings: the client speaks to, and for, exactly the issuer it was given, however it is
// spelled and whatever issuer the metadata names.
func c30spellings(c *x.Ctx) {
	for _, iss := range []string{"https://as.example.com", "https://as.example.com/", "https://as.example.com/tenant", "https://as.example.com/tenant/", "https://as.example.com//", "https://as.example.com:8443/t", "http://127.0.0.1:8080", "https://AS.example.com/Tenant", "https://as.example.com/a//b", "https://as.example.com/t.", "https://as.example.com/t/.", "https://user@as.example.com/t"} {
		names := []string{iss, "", "https://other.example.com", iss + "/", "<absent>"}
		for _, v := range []string{strings.TrimSuffix(iss, "/"), strings.ToLower(iss)} {
			if v != iss {
				names = append(names, v)
			}
		}
		for _, named := range names {
			for _, active := range []bool{true, false} {
				iss, named, active := iss, named, active
				c.Case(fmt.Sprintf("issuer %q, metadata of %q, active=%v", iss, named, active), func() string {
					s := newServer()
					u, err := url.Parse(iss + "/.well-known/oauth-authorization-server")
					if err != nil {
						return err.Error()
					}
					meta := metaJSON(named)
					if named == "<absent>" {
						meta = strings.Replace(metaJSON("x"), `"issuer":"x",`, "", 1)
					}
					s.body[u.Path], s.body["/keys"] = meta, keysJSON(0, "k1")
					s.body["/token"], s.body["/introspect"] = `{"access_token":"at"}`, fmt.Sprintf(`{"active":%v,"iss":"https://tokens.example","cnf":{"jkt":"j"}}`, active)
					return onServer(s, func() string {
						cl, err := client.HTTP(bg, iss, c30opts())
						c.Step()
						c.State(iss + " " + named)
						if err != nil {
							c.Outcome("metadata of another issuer refused")
							if named == iss {
								return "not connected: " + err.Error()
							}
							return ""
						}
						c.Outcome("connected")
						if len(s.log) == 0 || s.log[0] != "GET "+u.String() {
							return fmt.Sprintf("asked %q for the metadata of %q", s.log, iss)
						}
						if cl.Issuer() != iss {
							return fmt.Sprintf("the client of %q is the one of %q", iss, cl.Issuer())
						}
						asr, err := cl.Assertion()
						if err != nil {
							return err.Error()
						}
						_, m, _ := jwsParts(asr)
						if m["aud"] != iss || m["iss"] != "c1" || m["sub"] != "c1" {
							return fmt.Sprintf("the assertion for %q claims %v", iss, m)
						}
						t, err := cl.Introspect(bg, asr, "tok")
						c.Step()
						if err != nil {
							return err.Error()
						}
						if t.Issuer != iss || t.Value != "tok" || t.Metadata.Issuer != "https://tokens.example" || jktOf(t.Confirmation) != "j" || (t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE) != active {
							return fmt.Sprintf("introspected at %q: %v", iss, t)
						}
						if a, err := cl.ClientCredentials(bg, asr); err != nil || a.AccessToken != "at" {
							return fmt.Sprint(a, err)
						}
						return ""
					})
				})
			}
		}
	}
}

// c30sizes: long answers are read completely.
func c30sizes(c *x.Ctx) {
	for _, n := range []int{1 << 10, 8 << 10, 64 << 10, 1 << 20, 4 << 20} {
		n := n
		c.Case(fmt.Sprintf("answers of %d bytes", n), func() string {
			s := newServer()
			pad := fmt.Sprintf(`{"pad":%q,`, strings.Repeat("x", n))
			s.body["/keys"] = pad + keysJSON(0, "k1")[1:]
			s.body["/token"] = pad + `"access_token":"at"}`
			s.body["/introspect"] = pad + `"active":true}`
			return onServer(s, func() string {
				cl, err := client.HTTP(bg, srvBase, c30opts())
				if err != nil {
					return err.Error()
				}
				c.Step()
				c.State(fmt.Sprint("size ", n))
				if t, err := cl.ClientCredentials(bg, "a"); err != nil || t.AccessToken != "at" {
					return fmt.Sprint("token: ", err)
				}
				if t, err := cl.Introspect(bg, "a", "t"); err != nil || t.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
					return fmt.Sprint("introspection: ", err)
				}
				if k, _, err := cl.PublicKeys(bg); err != nil || kidsOf(k) != "k1" {
					return fmt.Sprint("keys: ", err)
				}
				return ""
			})
		})
	}
}

// c30keys: the key set cache against a reference.
func c30keys(c *x.Ctx) {
	depth := c.Q(6, 7)
	c.Bound("key set history depth", fmt.Sprint(depth))
	c30keysOf(c, "key set cache", depth, false)
	c.Bound("key set history depth, with every kind of failure", fmt.Sprint(depth-1))
	c30keysOf(c, "key set cache, every kind of failure", depth-1, true)
}

func c30keysOf(c *x.Ctx, name string, depth int, kinds bool) {
	c.Histories(name, func(h *x.H) string {
		s := newServer()
		return onServer(s, func() string {
			t0 := rt.Now().Unix()
			gen, exp, down := 1, uint64(t0+100), 0
			pub := func() {
				s.err["/keys"], s.status["/keys"], s.body["/keys"] = nil, 0, keysJSON(exp, kidsAt(gen)...)
				switch down {
				case 1:
					s.status["/keys"] = 500
				case 2:
					s.err["/keys"] = errors.New("refused")
				case 3:
					s.body["/keys"] = `{"keys":[]}`
				case 4:
					s.body["/keys"] = `{}`
				case 5:
					s.body["/keys"] = fmt.Sprintf(`{"exp":%d}`, exp)
				case 6:
					s.body["/keys"] = fmt.Sprintf(`{"keys":null,"exp":%d}`, exp)
				case 7:
					s.body["/keys"] = `null`
				}
			}
			pub()
			cl, err := client.HTTP(bg, srvBase, c30opts())
			if err != nil {
				return err.Error()
			}
			cached, cexp := strings.Join(kidsAt(1), ","), exp
			// what a caller was given stays what it is
			given := map[*jose.JSONWebKeySet]string{}
			keep := func(set *jose.JSONWebKeySet) {
				if _, old := given[set]; !old && set != nil {
					given[set] = kidsOf(set)
				}
			}
			for i := 0; i < depth; i++ {
				for set, kids := range given {
					if k := kidsOf(set); k != kids {
						return fmt.Sprintf("an answer with the keys %s now has the keys %s", kids, k)
					}
				}
				switch op := h.Choose(8); op {
				case 7:
					h.Label("get, canceled context")
					cc, cancel := context.WithCancel(bg)
					cancel()
					nw := uint64(rt.Now().Unix())
					set, e, err := cl.PublicKeys(cc)
					keep(set)
					c.Step()
					if cexp > nw {
						if err == nil && (kidsOf(set) != cached || e != cexp) {
							return fmt.Sprintf("cached keys %s until %d: got %s until %d", cached, cexp, kidsOf(set), e)
						}
					} else if err == nil || set != nil {
						return fmt.Sprintf("canceled request returns the keys %s", kidsOf(set))
					}
				case 0:
					n := len(s.log)
					set, e, err := cl.PublicKeys(bg)
					keep(set)
					h.Label("get")
					c.Step()
					nw := uint64(rt.Now().Unix())
					switch {
					case cexp > nw:
						c.Outcome("cached")
						if len(s.log) != n {
							return "a fresh key set is fetched again"
						}
						if err != nil || kidsOf(set) != cached || e != cexp {
							return fmt.Sprintf("cached keys %s until %d: got %s until %d, %v", cached, cexp, kidsOf(set), e, err)
						}
					case down != 0 || (exp > 0 && exp < nw):
						c.Outcome("refused")
						if err == nil || set != nil || e != 0 {
							return fmt.Sprintf("no usable key set is published and %s is returned", kidsOf(set))
						}
					case exp == nw:
						// the boundary second
						if err == nil {
							cached, cexp = kidsOf(set), e
						}
					default:
						c.Outcome("fetched")
						if len(s.log) != n+1 {
							return fmt.Sprintf("%d requests for one refresh", len(s.log)-n)
						}
						if err != nil || kidsOf(set) != strings.Join(kidsAt(gen), ",") || e != exp {
							return fmt.Sprintf("published k%d until %d: got %s until %d, %v", gen, exp, kidsOf(set), e, err)
						}
						cached, cexp = kidsOf(set), e
					}
				case 1:
					h.Label("rotate, 100 s")
					gen++
					exp = uint64(rt.Now().Unix()) + 100
					pub()
				case 2:
					h.Label("rotate, no expiry")
					gen++
					exp = 0
					pub()
				case 3:
					h.Label("fail")
					if down = 1 + down%3; kinds {
						down = 1 + h.Choose(7)
						h.Label(fmt.Sprint("kind ", down))
					}
					pub()
				case 4:
					h.Label("recover")
					down = 0
					pub()
				case 5:
					h.Label("+99 s")
					rt.Advance(99 * time.Second)
				case 6:
					h.Label("+2 s")
					rt.Advance(2 * time.Second)
				}
				c.State(fmt.Sprint(gen, int64(exp)-rt.Now().Unix(), down, cached, int64(cexp)-rt.Now().Unix()))
			}
			return ""
		})
	})
}

// c30again: what a client with expired keys makes of the next answer, whatever its status,
// its body and its headers, and of the one after it.
func c30again(c *x.Ctx, statuses []int, junk []string) {
	at := func(d time.Duration) string { return rt.Base.Add(d).UTC().Format(http.TimeFormat) }
	heads := []http.Header{{}, {"Expires": {at(time.Hour)}}, {"Expires": {at(-time.Hour)}}, {"Cache-Control": {"max-age=3600"}}, {"Cache-Control": {"public, immutable, max-age=31536000"}}, {"Cache-Control": {"no-store"}}, {"Etag": {`"v1"`}}, {"Last-Modified": {at(-time.Hour)}}, {"Age": {"10"}}, {"Date": {at(-time.Hour)}},
		{"Date": {at(time.Hour)}}, {"Retry-After": {"1"}}, {"Content-Type": {"text/html"}}, {"Content-Type": {"application/jwk-set+json"}}, {"Content-Length": {"3"}}, {"X-Cache": {"HIT"}}, {"Warning": {`110 - "stale"`}}}
	exps := []int64{-1, 0, -3600, 5, 60, 7200}
	for _, first := range []int64{0, 10} {
		for ei, exp := range exps {
			for _, st := range statuses {
				for hi, hd := range heads {
					for bi := -1; bi < len(junk); bi++ {
						if st != 200 && bi > 3 || bi >= 0 && ei > 0 || hi > 0 && bi > 0 {
							continue
						}
						first, exp, st, hd, bi := first, exp, st, hd, bi
						c.Case(fmt.Sprintf("keys of %d s asked again: status %d header#%d body#%d exp %d", first, st, hi, bi, exp), func() string {
							s := newServer()
							s.head = hd
							abs := func(d int64, base time.Time) uint64 {
								if d == 0 {
									return 0
								}
								return uint64(base.Unix() + d)
							}
							s.body["/keys"] = keysJSON(abs(first, rt.Now()), "k1")
							return onServer(s, func() string {
								cl, err := client.HTTP(bg, srvBase, c30opts())
								if err != nil {
									return err.Error()
								}
								rt.Advance(20 * time.Second)
								s.status["/keys"] = st
								until := abs(exp, rt.Now())
								if s.body["/keys"] = keysJSON(until, "k2"); bi >= 0 {
									s.body["/keys"] = junk[bi]
								}
								n := len(s.log)
								set, e, err := cl.PublicKeys(bg)
								c.Step()
								c.State(fmt.Sprint("again", first, exp, st, bi))
								if len(s.log) == n {
									return "expired keys are not fetched again"
								}
								want := st == 200 && bi < 0 && exp >= 0
								if (err == nil) != want || (set != nil) != want || (want && (kidsOf(set) != "k2" || e != until)) {
									return fmt.Sprintf("got %s until %d, %v", kidsOf(set), e, err)
								}
								// and once more, after another rotation
								s.status["/keys"], s.body["/keys"] = 200, keysJSON(0, "k3")
								for _, d := range []time.Duration{time.Second, 3 * time.Second, time.Minute, time.Hour} {
									rt.Advance(d)
									kids := "k3"
									if want && until > uint64(rt.Now().Unix()) {
										kids = "k2"
									} else if want && until == uint64(rt.Now().Unix()) {
										continue
									}
									if set, _, err := cl.PublicKeys(bg); err != nil || kidsOf(set) != kids {
										return fmt.Sprintf("later: got %s instead of %s, %v", kidsOf(set), kids, err)
									}
								}
								return ""
							})
						})
					}
				}
			}
		}
	}
	// the headers of an answer do not make it another one
	for hi, hd := range heads {
		for _, st := range statuses {
			hd, st := hd, st
			c.Case(fmt.Sprintf("answers with header#%d status %d", hi, st), func() string {
				s := newServer()
				s.body["/token"], s.body["/introspect"] = `{"access_token":"at"}`, `{"active":true,"sub":"alice"}`
				return onServer(s, func() string {
					cl, err := client.HTTP(bg, srvBase, c30opts())
					if err != nil {
						return err.Error()
					}
					s.head, s.status["/token"], s.status["/introspect"] = hd, st, st
					c.Step()
					t, err := cl.ClientCredentials(bg, "a")
					if (err == nil) != (st == 200) || (t != nil) != (st == 200) || (err == nil && t.AccessToken != "at") {
						return fmt.Sprint("token: ", t, err)
					}
					i, err := cl.Introspect(bg, "a", "t")
					if (err == nil) != (st == 200) || (i != nil) != (st == 200) || (err == nil && i.Metadata.Subject != "alice") {
						return fmt.Sprint("introspection: ", i, err)
					}
					return ""
				})
			})
		}
	}
	// the assertion names the client, whatever its key, its scopes and its addresses are called
	for n, v := range texts {
		for _, where := range []string{"kid", "client", "audience", "redirect", "scope", "use", "alg"} {
			n, v, where := n, v, where
			if where == "client" && v == "" {
				continue
			}
			c.Case(fmt.Sprintf("assertion with text %d as %s", n, where), func() string {
				s := newServer()
				return onServer(s, func() string {
					o := c30opts()
					id := "c1"
					jk := map[string]any{"kid": "ck"}
					switch where {
					case "kid", "use", "alg":
						jk[where] = v
					case "client":
						id = v
					case "audience":
						o.Audience = v
					case "redirect":
						o.RedirectURI = v
					case "scope":
						o.Scopes = []string{v}
					}
					o.ClientID = id
					o.JWK, _ = json.Marshal(jwkMap(key384(), true, jk))
					cl, err := client.HTTP(bg, srvBase, o)
					if err != nil {
						return err.Error()
					}
					c.Step()
					raw, err := cl.Assertion()
					if err != nil {
						if where == "alg" {
							return ""
						}
						return err.Error()
					}
					_, m, ok := jwsParts(raw)
					if !ok || m["iss"] != id || m["sub"] != id || m["aud"] != srvBase {
						return fmt.Sprint("claims ", m)
					}
					return ""
				})
			})
		}
	}
}

func c30endpoints(c *x.Ctx, statuses []int, junk []string) {
	okTok := `{"access_token":"at","token_type":"DPoP","refresh_token":"rt"}`
	okIntro := `{"active":true,"sub":"alice"}`
	texts := append([]string{"abc", "", "a b&c=d", "\u00e9%", strings.Repeat("x", 3000)}, texts...)
	for _, ep := range []string{"token", "introspect"} {
		good := okTok
		if ep == "introspect" {
			good = okIntro
		}
		bodies := append([]string{good}, junk...)
		// a readable prefix before a member of the wrong type is no answer
		if ep == "token" {
			bodies = append(bodies, `{"access_token":"at","token_type":5}`, `{"token_type":[],"access_token":"at"}`, `{"access_token":"at","refresh_token":7}`, `{"access_token":"at"`, `{"access_token":"at",`)
		} else {
			bodies = append(bodies, `{"active":true,"sub":5}`, `{"client_id":[],"active":true}`, `{"active":true,"exp":"x"}`, `{"active":true`, `{"active":true,`)
		}
		for bi, b := range bodies {
			for _, st := range statuses {
				for _, fail := range []string{"", "refused", "half", "canceled", "bad endpoint"} {
					for ti, text := range texts {
						if ti > 0 && (bi > 0 || st != 200) {
							continue
						}
						ep, b, st, fail, text := ep, b, st, fail, text
						c.Case(fmt.Sprintf("%s body %d status %d fault %q text %d", ep, bi, st, fail, ti), func() string {
							s := newServer()
							p := map[string]string{"token": "/token", "introspect": "/introspect"}[ep]
							s.body[p], s.status[p] = b, st
							ctx := context.Context(bg)
							return onServer(s, func() string {
								if fail == "bad endpoint" {
									s.body["/tenant/.well-known/oauth-authorization-server"] = `{"jwks_uri":"https://k.example.com/keys","token_endpoint":"://t","introspection_endpoint":"%zz"}`
								}
								cl, err := client.HTTP(bg, srvBase, c30opts())
								if err != nil {
									return err.Error()
								}
								switch fail {
								case "refused":
									s.err[p] = errors.New("refused")
								case "half":
									s.body[p], s.cut[p] = b[:len(b)/2], true
								case "canceled":
									cc, cancel := context.WithCancel(bg)
									cancel()
									ctx = cc
								}
								n := len(s.log)
								var out bool
								var gotTok []string
								var it *tokenv1.Token
								if ep == "token" {
									t, e := cl.ClientCredentials(ctx, text)
									err, out = e, t != nil
									if t != nil {
										gotTok = []string{t.AccessToken, t.TokenType, t.RefreshToken}
									}
								} else {
									t, e := cl.Introspect(ctx, "asr", text)
									err, out, it = e, t != nil, t
								}
								c.Step()
								c.Outcome(fmt.Sprintf("%s status=%d ok=%v", ep, st, err == nil))
								c.State(fmt.Sprint(ep, bi, st, fail))
								if out == (err != nil) {
									return fmt.Sprintf("result=%v together with error %v", out, err)
								}
								if (st != 200 || (fail != "" && !(fail == "half" && len(b) < 2))) && err == nil {
									return fmt.Sprintf("status %d, fault %q: a result is returned", st, fail)
								}
								if fail == "bad endpoint" || fail == "canceled" {
									return ""
								}
								u := "POST https://t.example.com/token?x=1"
								f := url.Values{"grant_type": {"client_credentials"}, "client_assertion": {text}, "client_assertion_type": {"urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}}
								if ep == "introspect" {
									u = "POST https://i.example.com/introspect"
									f = url.Values{"token": {text}, "client_assertion": {"asr"}, "client_assertion_type": {"urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}}
								}
								if len(s.log) != n+1 || s.log[n] != u || s.heads[n].Get("Content-Type") != "application/x-www-form-urlencoded" || !reflect.DeepEqual(s.forms[n], f) {
									return fmt.Sprintf("sent %v with %v", s.log[n:], s.forms[n:])
								}
								if st != 200 || fail != "" {
									return ""
								}
								if bi == 0 {
									if err != nil {
										return err.Error()
									}
									if ep == "token" && !reflect.DeepEqual(gotTok, []string{"at", "DPoP", "rt"}) {
										return fmt.Sprint("received ", gotTok)
									}
									if ep == "introspect" && (it.Value != text || it.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE) {
										return fmt.Sprint("received ", it)
									}
									return ""
								}
								if it != nil && it.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
									return "an active token is made out of " + b
								}
								if len(gotTok) > 0 && gotTok[0] != "" {
									return "an access token is made out of " + b
								}
								return ""
							})
						})
					}
				}
			}
		}
	}
}

func c30introspection(c *x.Ctx) {
	textIntrospection(c)
	type f struct {
		json string
		ok   bool
		set  func(t *tokenv1.Token)
	}
	m := func(t *tokenv1.Token) *tokenv1.TokenMeta { return t.Metadata }
	un := func(*tokenv1.Token) {}
	dims := [][]f{
		{{`"active":true`, true, func(t *tokenv1.Token) { t.Status = tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE }}, {`"active":false`, true, un}, {``, true, un}, {`"active":null`, true, un}, {`"active":"true"`, false, un}, {`"active":1`, false, un}},
		{{`"iss":"https://i"`, true, func(t *tokenv1.Token) { m(t).Issuer = "https://i" }}, {``, true, un}, {`"iss":5`, false, un}},
		{{`"sub":"alice"`, true, func(t *tokenv1.Token) { m(t).Subject = "alice" }}, {``, true, un}},
		{{`"aud":"urn:x"`, true, func(t *tokenv1.Token) { m(t).Audience = "urn:x" }}, {``, true, un}, {`"aud":["urn:x"]`, true, func(t *tokenv1.Token) { m(t).Audience = "urn:x" }}, {`"aud":["a","b"]`, true, func(t *tokenv1.Token) { m(t).Audience = "a b" }}, {`"aud":7`, false, un}},
		{{`"exp":1700000100,"iat":1700000000,"nbf":1700000001`, true, func(t *tokenv1.Token) {
			m(t).ExpiresAt, m(t).IssuedAt, m(t).NotBefore = 1700000100, 1700000000, 1700000001
		}}, {``, true, un}, {`"exp":"soon"`, false, un}, {`"exp":-1`, false, un}, {`"iat":1700000000`, true, func(t *tokenv1.Token) { m(t).IssuedAt = 1700000000 }}},
		{{`"jti":"id","client_id":"c9","scope":"a b"`, true, func(t *tokenv1.Token) { t.TokenId, m(t).ClientId, m(t).Scope = "id", "c9", "a b" }}, {``, true, un}, {`"client_id":"c9"`, true, func(t *tokenv1.Token) { m(t).ClientId = "c9" }}},
		{{`"cnf":{"jkt":"k"}`, true, func(t *tokenv1.Token) { t.Confirmation = &tokenv1.TokenConfirmation{Jkt: "k"} }}, {``, true, un}, {`"cnf":null`, true, un}, {`"cnf":"k"`, false, un}},
		{{`"acr":"2","auth_time":5`, true, func(t *tokenv1.Token) { m(t).Acr = sp("2"); v := uint64(5); m(t).AuthTime = &v }}, {``, true, un}, {`"unknown":{"x":[1]}`, true, un}},
	}
	rec := make([]int, len(dims))
	var walk func(i int)
	walk = func(i int) {
		if i < len(dims) {
			for n := range dims[i] {
				rec[i] = n
				walk(i + 1)
			}
			rec[i] = 0
			return
		}
		if c.Skip() {
			c.SkipN()
			return
		}
		pick := append([]int{}, rec...)
		c.Case(fmt.Sprintf("introspection %v", pick), func() string {
			var parts []string
			want := &tokenv1.Token{Issuer: srvBase, Value: "tok", Metadata: &tokenv1.TokenMeta{}}
			ok := true
			for d, n := range pick {
				if dims[d][n].json != "" {
					parts = append(parts, dims[d][n].json)
				}
				ok = ok && dims[d][n].ok
				dims[d][n].set(want)
			}
			s := newServer()
			s.body["/introspect"] = "{" + strings.Join(parts, ",") + "}"
			return onServer(s, func() string {
				cl, err := client.HTTP(bg, srvBase, c30opts())
				if err != nil {
					return err.Error()
				}
				t, err := cl.Introspect(bg, "a", "tok")
				c.Step()
				c.Outcome(fmt.Sprintf("introspection ok=%v active=%v", err == nil, t.GetStatus()))
				if (err == nil) != ok {
					return fmt.Sprintf("understood=%v, want %v: %v", err == nil, ok, err)
				}
				if err != nil {
					return ""
				}
				w, _ := json.Marshal(want)
				g, _ := json.Marshal(t)
				if string(w) != string(g) {
					return fmt.Sprintf("read %s, want %s", g, w)
				}
				return ""
			})
		})
	}
	walk(0)
}

// c30assertion: the client's assertions identify it, and authenticate it at the server.
func c30assertion(c *x.Ctx) {
	key := key384()
	for _, age := range []time.Duration{0, 29 * time.Second, 31 * time.Second, time.Hour} {
		for _, alter := range []string{"", "other client", "other key", "unregistered"} {
			age, alter := age, alter
			c.Case(fmt.Sprintf("assertion after %s, %s", age, alter), func() string {
				s := newServer()
				return onServer(s, func() string {
					o := c30opts()
					cl, err := client.HTTP(bg, srvBase, o)
					if err != nil {
						return err.Error()
					}
					seen := map[string]bool{}
					raw := ""
					t0 := rt.Now().Unix()
					for i := 0; i < 5; i++ {
						raw, err = cl.Assertion()
						if err != nil {
							return err.Error()
						}
						h, m, ok := jwsParts(raw)
						if !ok || h["alg"] != "ES384" {
							return fmt.Sprint("header ", h)
						}
						if m["iss"] != "c1" || m["sub"] != "c1" || m["aud"] != srvBase || m["iat"] != float64(t0) || m["exp"] != float64(t0+30) {
							return fmt.Sprint("claims ", m)
						}
						j, _ := m["jti"].(string)
						if len(j) != 8 || seen[j] {
							return "the assertion id repeats or is not 8 characters long"
						}
						seen[j] = true
						c.Step()
					}
					k := any(key)
					if alter == "other key" {
						k = keyA()
					}
					cm := &clientMap{map[string]*clientv1.Client{"c1": {ClientId: "c1", Jwks: jwks(jwkMap(k, false, map[string]any{"kid": "ck"}))}, "c2": {ClientId: "c2", Jwks: jwks(jwkMap(key, false, map[string]any{"kid": "ck"}))}}}
					if alter == "unregistered" {
						delete(cm.m, "c1")
					}
					p := clientauthentication.PrivateKeyJWT(cm, []jose.SignatureAlgorithm{jose.ES384})
					rt.Advance(age)
					q := &clientv1.AuthenticateRequest{ClientAssertion: sp(raw), ClientAssertionType: sp("urn:ietf:params:oauth:client-assertion-type:jwt-bearer")}
					if alter == "other client" {
						q.ClientId = sp("c2")
					}
					res, err := p.Authenticate(bg, q)
					c.Outcome(fmt.Sprintf("assertion %s accepted=%v", alter, err == nil))
					c.State(fmt.Sprint("assertion", alter, age))
					if alter == "other client" {
						if err == nil && res.Client.ClientId != "c1" {
							return "authenticated as " + res.Client.ClientId
						}
						return ""
					}
					want := alter == "" && age < 30*time.Second
					if (err == nil) != want {
						return fmt.Sprintf("accepted=%v, want %v: %v", err == nil, want, err)
					}
					if want && res.Client.ClientId != "c1" {
						return "authenticated as " + res.Client.ClientId
					}
					return ""
				})
			})
		}
	}
	for i, j := range []string{"", "null", "{}", "[]", `{"kty":"EC"}`, string(mustJSON(jwkMap(keyA(), true, nil))), string(mustJSON(jwkMap(key, false, nil))), `{"kty":"oct","k":"AAAA"}`, "x"} {
		j := j
		c.Case(fmt.Sprintf("assertion key %d", i), func() string {
			s := newServer()
			return onServer(s, func() string {
				o := c30opts()
				o.JWK = []byte(j)
				cl, err := client.HTTP(bg, srvBase, o)
				if err != nil {
					return err.Error()
				}
				raw, err := cl.Assertion()
				c.Step()
				if err == nil || raw != "" {
					return "an assertion is made without an ES384 private key"
				}
				return ""
			})
		})
	}
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
