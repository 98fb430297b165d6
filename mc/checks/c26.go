package checks

import (
	"context"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C26", Run: c26,
		Rule: "every field (nested, optional, oneof, enum, list) of every request message and of every stored record set to every value of its alphabet, alone and in pairs, nil messages at every level included, executed by every service entry point"})
}

// mut changes one field of a message; it applies to a message of the same shape.
type mut struct {
	name  string
	apply func(m protoreflect.Message)
}

// mutations lists every single-field change of m, to the given depth of nesting. Populated and
// unpopulated fields are both covered.
func mutations(m protoreflect.Message, depth int) []mut {
	var out []mut
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		set := func(label string, v func(parent protoreflect.Message) protoreflect.Value) {
			out = append(out, mut{string(fd.Name()) + "=" + label, func(p protoreflect.Message) { p.Set(fd, v(p)) }})
		}
		out = append(out, mut{string(fd.Name()) + " absent", func(p protoreflect.Message) { p.Clear(fd) }})
		switch {
		case fd.IsMap():
		case fd.IsList():
			add := func(label string, n int, v func(l protoreflect.List) protoreflect.Value) {
				set(label, func(p protoreflect.Message) protoreflect.Value {
					nv := p.NewField(fd)
					for k := 0; k < n; k++ {
						nv.List().Append(v(nv.List()))
					}
					return nv
				})
			}
			switch fd.Kind() {
			case protoreflect.StringKind:
				add("[blank]", 1, func(protoreflect.List) protoreflect.Value { return protoreflect.ValueOfString("") })
				add("[x x]", 2, func(protoreflect.List) protoreflect.Value { return protoreflect.ValueOfString("x") })
			case protoreflect.MessageKind:
				add("[empty]", 1, func(l protoreflect.List) protoreflect.Value { return l.NewElement() })
			}
		case fd.Kind() == protoreflect.StringKind:
			cur := m.Get(fd).String()
			for _, a := range []struct{ n, v string }{{"blank", ""}, {"space", " "}, {"nul", "\x00"}, {"bad utf8", "\xff\xfe"}, {"long", strings.Repeat("A", 5000)},
				{"upper", strings.ToUpper(cur)}, {"padded", " " + cur + " "}, {"cut", cur[:len(cur)/2]}, {"doubled", cur + cur}, {"percent", "%zz"}, {"colon", ":"}} {
				a := a
				set(a.n, func(protoreflect.Message) protoreflect.Value { return protoreflect.ValueOfString(a.v) })
			}
		case fd.Kind() == protoreflect.BytesKind:
			for _, v := range []string{"", "x", "{}", "null", `{"keys":null}`, `{"keys":[]}`, `{"keys":[null]}`, `{"keys":[{}]}`} {
				v := v
				set(fmt.Sprintf("%q", v), func(protoreflect.Message) protoreflect.Value { return protoreflect.ValueOfBytes([]byte(v)) })
			}
		case fd.Kind() == protoreflect.EnumKind:
			for _, v := range []protoreflect.EnumNumber{0, 1, 2, 3, 4, 99, -1} {
				v := v
				set(fmt.Sprint(v), func(protoreflect.Message) protoreflect.Value { return protoreflect.ValueOfEnum(v) })
			}
		case fd.Kind() == protoreflect.BoolKind:
			set("true", func(protoreflect.Message) protoreflect.Value { return protoreflect.ValueOfBool(true) })
		case fd.Kind() == protoreflect.Uint64Kind || fd.Kind() == protoreflect.Fixed64Kind:
			for _, v := range []uint64{0, 1, math.MaxInt64, math.MaxUint64} {
				v := v
				set(fmt.Sprint(v), func(protoreflect.Message) protoreflect.Value { return protoreflect.ValueOfUint64(v) })
			}
		case fd.Kind() == protoreflect.MessageKind:
			set("empty", func(p protoreflect.Message) protoreflect.Value { return p.NewField(fd) })
			if m.Has(fd) && depth > 0 {
				for _, s := range mutations(m.Get(fd).Message(), depth-1) {
					s := s
					out = append(out, mut{string(fd.Name()) + "." + s.name, func(p protoreflect.Message) {
						if p.Has(fd) {
							s.apply(p.Mutable(fd).Message())
						}
					}})
				}
			}
		default:
			panic("unhandled kind " + fd.Kind().String())
		}
	}
	return out
}

// answer is what a service gave: exactly one of a usable result or a protocol error is wanted.
type answer struct {
	nilRes bool
	perr   *corev1.Error
	err    error
	out    bool // a credential (or whatever the operation grants) is present
	full   bool // everything a success must carry is present
	exempt bool // no protocol error required
}

func (an answer) check() string {
	switch {
	case an.err != nil && an.out:
		return "error together with a result: " + an.err.Error()
	case an.err != nil && an.nilRes && !an.exempt:
		return "error without response: " + an.err.Error()
	case an.err != nil && !an.exempt && (an.perr == nil || an.perr.Err == ""):
		return "error without protocol error: " + an.err.Error()
	case an.err == nil && an.nilRes:
		return "neither response nor error"
	case an.err == nil && an.perr != nil:
		return "protocol error reported as a success"
	case an.err == nil && !an.full:
		return "success with an incomplete response"
	}
	return ""
}

// reqCase is one entry point with one complete valid request.
type reqCase struct {
	name string
	// prep gives a server and the valid request
	prep func() (*as, proto.Message)
	call func(a *as, m proto.Message) answer
	// extra is shapes of the request protobuf reflection cannot make
	extra []mut2
}

type mut2 struct {
	name string
	make func(m proto.Message) proto.Message
}

func tokAnswer(r *flowv1.TokenResponse, err error) answer {
	return answer{nilRes: r == nil, perr: r.GetError(), err: err, out: granted(r),
		full: r.GetAccessToken().GetValue() != "" && r.GetAccessToken().GetMetadata() != nil}
}

func callToken(a *as, m proto.Message) answer {
	q, _ := m.(*flowv1.TokenRequest)
	return tokAnswer(a.tok.Token(bg, q))
}

func nilPayloads() []mut2 {
	mk := func(name string, f func(t *flowv1.TokenRequest)) mut2 {
		return mut2{name, func(m proto.Message) proto.Message {
			t := proto.Clone(m).(*flowv1.TokenRequest)
			f(t)
			return t
		}}
	}
	var out []mut2
	for i, g := range []string{gtCode, gtCC, gtDevice, gtRefresh, gtExchange} {
		g := g
		k := i
		out = append(out,
			mk("nil payload of "+g, func(t *flowv1.TokenRequest) {
				t.GrantType = g
				switch k {
				case 0:
					t.Grant = &flowv1.TokenRequest_AuthorizationCode{}
				case 1:
					t.Grant = &flowv1.TokenRequest_ClientCredentials{}
				case 2:
					t.Grant = &flowv1.TokenRequest_DeviceCode{}
				case 3:
					t.Grant = &flowv1.TokenRequest_RefreshToken{}
				case 4:
					t.Grant = &flowv1.TokenRequest_TokenExchange{}
				}
			}),
			mk("empty payload of "+g, func(t *flowv1.TokenRequest) {
				t.GrantType = g
				switch k {
				case 0:
					t.Grant = &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{}}
				case 1:
					t.Grant = &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}
				case 2:
					t.Grant = &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{}}
				case 3:
					t.Grant = &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{}}
				case 4:
					t.Grant = &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{}}
				}
			}),
			mk("grant type "+g, func(t *flowv1.TokenRequest) { t.GrantType = g }))
	}
	return out
}

func c26requests() []reqCase {
	fullAuth := func(client string) *flowv1.AuthorizationRequest {
		r := authReq(client)
		r.Scope = "openid offline_access"
		r.Prompt = sp("consent")
		r.ResponseMode = sp("query")
		r.Display = sp("page")
		r.LoginHint = sp("bob")
		r.IdTokenHint = sp("x")
		r.UiLocales = sp("fr")
		r.AcrValues = sp("1")
		return r
	}
	tokens := func() (*as, string, string) {
		a := newAS()
		code := a.mustCode(issA, "alice", "c1", "openid offline_access", "consent")
		r, err := a.tok.Token(bg, exchangeReq(issA, "c1", code, redir1, verifierOK))
		if err != nil {
			panic(err)
		}
		return a, r.AccessToken.Value, r.RefreshToken.Value
	}
	device := func(approve bool) (*as, *flowv1.DeviceAuthorizationResponse) {
		a := newAS()
		r, err := a.dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: "c1", Scope: sp("openid offline_access"), Audience: sp("urn:x")})
		if err != nil {
			panic(err)
		}
		if approve {
			if _, err := a.dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: issA, UserCode: r.UserCode, Subject: "alice"}); err != nil {
				panic(err)
			}
		}
		return a, r
	}
	callAuthorize := func(a *as, m proto.Message) answer {
		q, _ := m.(*flowv1.AuthorizeRequest)
		r, err := a.auth.Authorize(bg, q)
		return answer{nilRes: r == nil, perr: r.GetError(), err: err, out: r.GetCode() != "", full: r.GetCode() != "" && r.GetIssuer() != "" && r.GetRedirectUri() != "" && r.GetState() != "" && r.GetExpiresIn() > 0 && r.GetClientId() != ""}
	}
	return []reqCase{
		{name: "authorize", prep: func() (*as, proto.Message) {
			return newAS(), &flowv1.AuthorizeRequest{Issuer: issA, Subject: "alice", Client: cli("c1"), Request: fullAuth("c1")}
		}, call: callAuthorize},
		{name: "authorize pushed", prep: func() (*as, proto.Message) {
			a := newAS()
			r, err := a.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: issA, Client: cli("c1"), Request: fullAuth("c1")})
			if err != nil {
				panic(err)
			}
			return a, &flowv1.AuthorizeRequest{Issuer: issA, Subject: "alice", Client: cli("c1"), Request: &flowv1.AuthorizationRequest{RequestUri: sp(r.RequestUri)}}
		}, call: callAuthorize},
		{name: "push", prep: func() (*as, proto.Message) {
			return newAS(), &flowv1.RegistrationRequest{Issuer: issA, Client: cli("c1"), Request: fullAuth("c1"), Confirmation: &tokenv1.TokenConfirmation{Jkt: "k"}}
		}, call: func(a *as, m proto.Message) answer {
			q, _ := m.(*flowv1.RegistrationRequest)
			r, err := a.auth.Register(bg, q)
			return answer{nilRes: r == nil, perr: r.GetError(), err: err, out: r.GetRequestUri() != "", full: r.GetRequestUri() != "" && r.GetExpiresIn() > 0 && r.GetIssuer() != ""}
		}},
		{name: "code grant", extra: nilPayloads(), prep: func() (*as, proto.Message) {
			a := newAS()
			q := exchangeReq(issA, "c1", a.mustCode(issA, "alice", "c1", "openid offline_access", "consent"), redir1, verifierOK)
			q.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: "k"}
			return a, q
		}, call: callToken},
		{name: "client credentials grant", prep: func() (*as, proto.Message) {
			q := ccReq(issA, "c1", sp("a b"), sp("urn:x"))
			q.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: "k"}
			return newAS(), q
		}, call: callToken},
		{name: "refresh grant", prep: func() (*as, proto.Message) {
			a, _, r := tokens()
			return a, refreshReq(issA, "c1", r)
		}, call: callToken},
		{name: "rotating refresh grant", prep: func() (*as, proto.Message) {
			a, _, r := tokens()
			rt.Advance(7*24*time.Hour - 30*time.Minute)
			return a, refreshReq(issA, "c1", r)
		}, call: callToken},
		{name: "token exchange grant", prep: func() (*as, proto.Message) {
			a, at, _ := tokens()
			q := txReq(issA, "c2", at, sp("openid"), sp(resURN))
			g := q.GetTokenExchange()
			g.RequestedTokenType = sp(atType)
			return a, q
		}, call: callToken},
		{name: "device grant", prep: func() (*as, proto.Message) {
			a, d := device(true)
			return a, pollReq(issA, "c1", d.DeviceCode)
		}, call: callToken},
		{name: "device request", prep: func() (*as, proto.Message) {
			return newAS(), &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: "c1", Scope: sp("openid"), Audience: sp("urn:x")}
		}, call: func(a *as, m proto.Message) answer {
			q, _ := m.(*flowv1.DeviceAuthorizationRequest)
			r, err := a.dev.Authorize(bg, q)
			return answer{nilRes: r == nil, perr: r.GetError(), err: err, out: r.GetDeviceCode() != "" || r.GetUserCode() != "", full: r.GetDeviceCode() != "" && r.GetUserCode() != "" && r.GetExpiresIn() > 0 && r.GetIssuer() != ""}
		}},
		{name: "device approval", prep: func() (*as, proto.Message) {
			a, d := device(false)
			return a, &flowv1.DeviceCodeValidationRequest{Issuer: issA, UserCode: d.UserCode, Subject: "alice"}
		}, call: func(a *as, m proto.Message) answer {
			q, _ := m.(*flowv1.DeviceCodeValidationRequest)
			r, err := a.dev.Validate(bg, q)
			return answer{nilRes: r == nil, perr: r.GetError(), err: err, full: true}
		}},
		{name: "introspect", prep: func() (*as, proto.Message) {
			a, at, _ := tokens()
			return a, &tokenv1.IntrospectRequest{Issuer: issA, Client: cli("c1"), Token: at}
		}, call: func(a *as, m proto.Message) answer {
			q, _ := m.(*tokenv1.IntrospectRequest)
			r, err := a.tok.Introspect(bg, q)
			// unknown tokens are answered, inactive, beside the error
			unknown := r.GetToken().GetStatus() == tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN
			return answer{nilRes: r == nil, perr: r.GetError(), err: err, out: r.GetToken() != nil && !unknown, full: r.GetToken() != nil, exempt: unknown}
		}},
		{name: "revoke", prep: func() (*as, proto.Message) {
			a, at, _ := tokens()
			return a, &tokenv1.RevokeRequest{Issuer: issA, Client: cli("c1"), Token: at}
		}, call: func(a *as, m proto.Message) answer {
			q, _ := m.(*tokenv1.RevokeRequest)
			r, err := a.tok.Revoke(bg, q)
			return answer{nilRes: r == nil, perr: r.GetError(), err: err, full: true, exempt: true}
		}},
	}
}

func typedNil(m proto.Message) proto.Message {
	return m.ProtoReflect().Type().Zero().Interface()
}

func c26(c *x.Ctx) {
	pairs := 2
	c.Bound("simultaneous field changes", fmt.Sprint(pairs))
	for _, rc := range c26requests() {
		rc := rc
		rt.ResetClock()
		_, valid := rc.prep()
		ms := mutations(valid.ProtoReflect(), 3)
		c.Bound("field changes: "+rc.name, fmt.Sprint(len(ms)))
		run := func(key string, f func(m proto.Message) proto.Message, mustWork bool) {
			c.Case(rc.name+": "+key, func() string {
				rt.ResetClock()
				a, m := rc.prep()
				m = f(m)
				an := rc.call(a, m)
				c.Step()
				ec := ""
				if an.perr != nil {
					ec = an.perr.Err
				}
				c.State(fmt.Sprint(rc.name, an.err != nil, ec))
				c.Outcome(fmt.Sprintf("%s: granted=%v %s", rc.name, an.err == nil, ec))
				if mustWork && an.err != nil {
					return "the valid request is refused: " + an.err.Error()
				}
				if e := an.check(); e != "" {
					return e
				}
				// the server still serves a valid request afterwards
				a.hook = nil
				if r, err := a.tok.Token(bg, ccReq(issA, "c1", sp("a"), sp("urn:x"))); err != nil || !granted(r) {
					return fmt.Sprint("the server no longer serves valid requests: ", err)
				}
				return ""
			})
		}
		run("valid", func(m proto.Message) proto.Message { return m }, true)
		run("nil request", typedNil, false)
		run("empty request", func(m proto.Message) proto.Message { return m.ProtoReflect().New().Interface() }, false)
		for _, e := range rc.extra {
			run(e.name, e.make, false)
			for _, m := range ms {
				m := m
				run(e.name+", "+m.name, func(v proto.Message) proto.Message {
					v = proto.Clone(v)
					m.apply(v.ProtoReflect())
					return e.make(v)
				}, false)
			}
		}
		for i := range ms {
			i := i
			run(ms[i].name, func(m proto.Message) proto.Message { ms[i].apply(m.ProtoReflect()); return m }, false)
			for j := i + 1; j < len(ms); j++ {
				j := j
				if c.Skip() {
					c.SkipN()
					continue
				}
				run(ms[i].name+" and "+ms[j].name, func(m proto.Message) proto.Message {
					ms[i].apply(m.ProtoReflect())
					ms[j].apply(m.ProtoReflect())
					return m
				}, false)
			}
		}
	}
	c26records(c)
	c26authenticate(c)
	c26sdk(c)
}

// c26records corrupts what the storage returns.
func c26records(c *x.Ctx) {
	type rec struct {
		name  string
		valid func() (a *as, stored proto.Message, call func(stored proto.Message) answer)
	}
	// lookup replaces the value under which a record is found
	var lookup *string
	at := func(def string) string {
		if lookup != nil {
			return *lookup
		}
		return def
	}
	recs := []rec{
		{"stored client", func() (*as, proto.Message, func(proto.Message) answer) {
			a := newAS()
			code := a.mustCode(issA, "alice", "c1", "openid offline_access", "consent")
			return a, a.clients.m["c1"], func(s proto.Message) answer {
				a.clients.m["c1"], _ = s.(*clientv1.Client)
				return callToken(a, exchangeReq(issA, "c1", code, redir1, verifierOK))
			}
		}},
		{"stored client at authorize", func() (*as, proto.Message, func(proto.Message) answer) {
			a := newAS()
			return a, a.clients.m["c1"], func(s proto.Message) answer {
				a.clients.m["c1"], _ = s.(*clientv1.Client)
				r, err := a.authorize(issA, "alice", "c1", authReq("c1"))
				return answer{nilRes: r == nil, perr: r.GetError(), err: err, out: r.GetCode() != "", full: r.GetCode() != ""}
			}
		}},
		{"stored client at client credentials", func() (*as, proto.Message, func(proto.Message) answer) {
			a := newAS()
			return a, a.clients.m["c1"], func(s proto.Message) answer {
				a.clients.m["c1"], _ = s.(*clientv1.Client)
				return callToken(a, ccReq(issA, "c1", sp("a"), sp("urn:x")))
			}
		}},
		{"stored client at device request", func() (*as, proto.Message, func(proto.Message) answer) {
			a := newAS()
			return a, a.clients.m["c1"], func(s proto.Message) answer {
				a.clients.m["c1"], _ = s.(*clientv1.Client)
				r, err := a.dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: "c1"})
				return answer{nilRes: r == nil, perr: r.GetError(), err: err, out: r.GetDeviceCode() != "", full: r.GetDeviceCode() != ""}
			}
		}},
		{"stored code session", func() (*as, proto.Message, func(proto.Message) answer) {
			a := newAS()
			s := &sessionv1.AuthorizationCodeSession{Issuer: issA, Subject: "alice", Client: a.clients.m["c1"], Request: authReq("c1")}
			s.Request.Scope = "openid offline_access"
			return a, s, func(s proto.Message) answer {
				q, _ := s.(*sessionv1.AuthorizationCodeSession)
				a.codes = &fixedCode{a.codes, q}
				a.build()
				return callToken(a, exchangeReq(issA, "c1", at(strings.Repeat("x", 32)), redir1, verifierOK))
			}
		}},
		{"stored device session", func() (*as, proto.Message, func(proto.Message) answer) {
			a := newAS()
			s := &sessionv1.DeviceCodeSession{Issuer: issA, Subject: sp("alice"), Client: a.clients.m["c1"], Request: &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: "c1", Scope: sp("openid offline_access"), Audience: sp("urn:x")},
				DeviceCode: strings.Repeat("d", 64), ExpiresAt: uint64(rt.Now().Unix()) + 100, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED}
			return a, s, func(s proto.Message) answer {
				q, _ := s.(*sessionv1.DeviceCodeSession)
				a.useDevs(&fixedDev{s: q})
				return callToken(a, pollReq(issA, "c1", at(strings.Repeat("d", 64))))
			}
		}},
		{"stored device session at approval", func() (*as, proto.Message, func(proto.Message) answer) {
			a := newAS()
			s := &sessionv1.DeviceCodeSession{Issuer: issA, Client: a.clients.m["c1"], Request: &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: "c1", Scope: sp("openid offline_access"), Audience: sp("urn:x")},
				DeviceCode: strings.Repeat("d", 64), ExpiresAt: uint64(rt.Now().Unix()) + 100, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING}
			return a, s, func(s proto.Message) answer {
				q, _ := s.(*sessionv1.DeviceCodeSession)
				a.useDevs(&fixedDev{s: q})
				r, err := a.dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: issA, UserCode: at("ABCDEFGH"), Subject: "alice"})
				return answer{nilRes: r == nil, perr: r.GetError(), err: err, full: true}
			}
		}},
	}
	stored := func(kind string) *tokenv1.Token {
		now := uint64(rt.Now().Unix())
		t := &tokenv1.Token{Issuer: issA, TokenId: "id-1", Value: "stored-value", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN,
			Metadata:     &tokenv1.TokenMeta{Issuer: issA, Subject: "alice", ClientId: "c1", Scope: "openid offline_access", Audience: "urn:api:c1", IssuedAt: now, NotBefore: now, ExpiresAt: now + 1800},
			Confirmation: &tokenv1.TokenConfirmation{Jkt: "k"}}
		if kind == "rt" {
			t.TokenType = tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN
		}
		return t
	}
	withToken := func(name, kind string, call func(a *as) answer) rec {
		return rec{name, func() (*as, proto.Message, func(proto.Message) answer) {
			a := newAS()
			return a, stored(kind), func(s proto.Message) answer {
				q, _ := s.(*tokenv1.Token)
				a.useTokens(&fixedToken{a.rawTok, q})
				return call(a)
			}
		}}
	}
	recs = append(recs,
		withToken("stored token at refresh", "rt", func(a *as) answer { return callToken(a, refreshReq(issA, "c1", at("stored-value"))) }),
		withToken("stored token at exchange", "at", func(a *as) answer {
			return callToken(a, txReq(issA, "c1", at("stored-value"), sp("openid"), sp(resURN)))
		}),
		withToken("stored token at introspection", "at", func(a *as) answer {
			r, err := a.tok.Introspect(bg, &tokenv1.IntrospectRequest{Issuer: issA, Client: cli("c1"), Token: at("stored-value")})
			return answer{nilRes: r == nil, perr: r.GetError(), err: err, full: true, exempt: true}
		}),
		withToken("stored token at revocation", "at", func(a *as) answer {
			r, err := a.tok.Revoke(bg, &tokenv1.RevokeRequest{Issuer: issA, Client: cli("c1"), Token: at("stored-value")})
			return answer{nilRes: r == nil, perr: r.GetError(), err: err, full: true, exempt: true}
		}))
	for _, r := range recs {
		r := r
		rt.ResetClock()
		_, st, _ := r.valid()
		ms := mutations(st.ProtoReflect(), 2)
		c.Bound("field changes: "+r.name, fmt.Sprint(len(ms)))
		run := func(key string, f func(m proto.Message) proto.Message, mustWork bool) {
			c.Case(r.name+": "+key, func() string {
				rt.ResetClock()
				lookup = nil
				_, st, call := r.valid()
				an := call(f(proto.Clone(st)))
				c.Step()
				c.State(fmt.Sprint(r.name, an.err != nil, an.perr.GetErr()))
				c.Outcome(fmt.Sprintf("%s: granted=%v", r.name, an.err == nil))
				if mustWork && an.err != nil {
					return "refused: " + an.err.Error()
				}
				return an.check()
			})
		}
		// the value under which the record is found may be any text
		for _, k := range []string{"<empty>", "u", "12", "abc", "\u00e9", "\xff", "-", "    ", "%s%d%n", strings.Repeat("k", 3000)} {
			k := k
			if k == "<empty>" {
				k = ""
			}
			found := func(f func(m proto.Message) proto.Message) func(m proto.Message) proto.Message {
				return func(m proto.Message) proto.Message { lookup = &k; return f(m) }
			}
			run(fmt.Sprintf("valid, found as %.20q", k), found(func(m proto.Message) proto.Message { return m }), false)
			run(fmt.Sprintf("empty record, found as %.20q", k), found(func(m proto.Message) proto.Message { return m.ProtoReflect().New().Interface() }), false)
			for i := range ms {
				i := i
				run(fmt.Sprintf("%s, found as %.20q", ms[i].name, k), found(func(m proto.Message) proto.Message { ms[i].apply(m.ProtoReflect()); return m }), false)
			}
		}
		run("valid", func(m proto.Message) proto.Message { return m }, true)
		run("empty record", func(m proto.Message) proto.Message { return m.ProtoReflect().New().Interface() }, false)
		for i := range ms {
			i := i
			run(ms[i].name, func(m proto.Message) proto.Message { ms[i].apply(m.ProtoReflect()); return m }, false)
			for j := i + 1; j < len(ms); j++ {
				j := j
				if c.Skip() {
					c.SkipN()
					continue
				}
				run(ms[i].name+" and "+ms[j].name, func(m proto.Message) proto.Message {
					ms[i].apply(m.ProtoReflect())
					ms[j].apply(m.ProtoReflect())
					return m
				}, false)
			}
		}
	}
}

type fixedCode struct {
	storage.AuthorizationCodeSession
	s *sessionv1.AuthorizationCodeSession
}

func (f *fixedCode) Get(context.Context, string, string) (*sessionv1.AuthorizationCodeSession, error) {
	return f.s, nil
}
func (f *fixedCode) Delete(context.Context, string, string) error { return nil }

type fixedToken struct {
	storage.Token
	t *tokenv1.Token
}

func (f *fixedToken) GetByValue(context.Context, string, string) (*tokenv1.Token, error) {
	return f.t, nil
}
func (f *fixedToken) Get(context.Context, string, string) (*tokenv1.Token, error) { return f.t, nil }
func (f *fixedToken) Revoke(context.Context, string, string) error                { return nil }

// c26authenticate feeds the authenticators with every mutated request and every short token.
func c26authenticate(c *x.Ctx) {
	algs := []jose.SignatureAlgorithm{jose.ES256}
	mk := map[string]func(storage.ClientReader) clientauthentication.AuthenticationProcessor{
		"private_key_jwt": func(s storage.ClientReader) clientauthentication.AuthenticationProcessor {
			return clientauthentication.PrivateKeyJWT(s, algs)
		},
		"attestation": func(s storage.ClientReader) clientauthentication.AuthenticationProcessor {
			return clientauthentication.ClientAttestation(s, algs)
		},
	}
	e := b64([]byte("{}"))
	toks := []string{"", ".", "..", "...", "~", "a~b", "x.y.z", e + "." + e + ".", e + "." + e + "." + e, b64([]byte("null")) + "." + b64([]byte("null")) + ".", "{}", "null", "[]",
		b64([]byte(`{"alg":"none"}`)) + "." + e + ".", b64([]byte(`{"alg":"ES256","jwk":null}`)) + "." + e + "." + e, strings.Repeat("a.", 40), "\x00", "\xff.\xff.\xff", strings.Repeat("A", 3000)}
	toks2 := append([]string{}, toks...)
	for _, a := range toks {
		for _, b := range toks {
			if len(a)+len(b) < 300 {
				toks2 = append(toks2, a+"~"+b)
			}
		}
	}
	types := []string{"", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "urn:ietf:params:oauth:client-assertion-type:jwt-client-attestation", "x", " "}
	for _, name := range []string{"private_key_jwt", "attestation"} {
		for _, st := range []string{"inmemory", "empty"} {
			var r storage.ClientReader = inmemory.Clients()
			if st == "empty" {
				r = &clientMap{map[string]*clientv1.Client{}}
			}
			p := mk[name](r)
			one := func(key string, q *clientv1.AuthenticateRequest) {
				c.Case("authenticate "+name+"/"+st+": "+key, func() string {
					res, err := p.Authenticate(bg, q)
					c.Step()
					c.Outcome("authenticate refused")
					c.State(name + res.GetError().GetErr())
					if err == nil || res.GetClient() != nil {
						return "a request without a valid proof authenticates"
					}
					if res.GetError().GetErr() == "" {
						return "error without protocol error: " + err.Error()
					}
					return ""
				})
			}
			one("nil request", nil)
			one("empty request", &clientv1.AuthenticateRequest{})
			for ti, t := range types {
				for ai, a := range toks2 {
					one(fmt.Sprintf("type %d assertion %d", ti, ai), &clientv1.AuthenticateRequest{ClientAssertionType: sp(t), ClientAssertion: sp(a), ClientId: sp("6779ef20e75817b79602")})
				}
				one(fmt.Sprintf("type %d, no assertion", ti), &clientv1.AuthenticateRequest{ClientAssertionType: sp(t)})
			}
			for ai, a := range toks2 {
				one(fmt.Sprintf("assertion %d, no type", ai), &clientv1.AuthenticateRequest{ClientAssertion: sp(a)})
			}
		}
	}
}
