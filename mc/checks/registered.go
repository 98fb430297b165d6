package checks

import (
	"fmt"
	"slices"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"verif.local/mc/x"
)

// registered enumerates the rest of a client's registration: which grants a client may use
// follows from its type and its registered grants alone, whatever else is registered for it,
// one and two other members at a time, and the tokens it obtains are the same.
func registered(c *x.Ctx) {
	all := []string{gtCode, gtCC, gtRefresh, gtDevice, gtExchange}
	grantOf := map[string]string{"authorize": gtCode, "push": gtCode, "code": gtCode, "refresh": gtRefresh, "cc": gtCC, "device authorize": gtDevice, "device": gtDevice, "tx": gtExchange}
	extras := clientMembers("client_id", "client_type", "grant_types", "redirect_uris", "response_types", "response_modes")
	type shapeOf struct {
		name string
		typ  clientv1.ClientType
		g    func(kind string) []string
	}
	without := func(kind string) []string {
		return slices.DeleteFunc(slices.Clone(all), func(s string) bool { return s == grantOf[kind] })
	}
	every := func(string) []string { return all }
	only := func(kind string) []string { return []string{grantOf[kind]} }
	none := func(string) []string { return nil }
	shapes := []shapeOf{{"confidential", tConf, every}, {"credentialed", tCred, every}, {"public", tPub, every}, {"untyped", 0, every},
		{"confidential without the grant", tConf, without}, {"credentialed without the grant", tCred, without}, {"public without the grant", tPub, without},
		{"confidential with the grant only", tConf, only}, {"public without grants", tPub, none}, {"confidential without grants", tConf, none}}
	for _, kind := range []string{"cc", "authorize", "push", "code", "refresh", "device authorize", "device", "tx"} {
		for _, sh := range shapes {
			kind, sh := kind, sh
			// run answers what the server says to the client registered with the extras
			run := func(es ...member) (string, bool) {
				a := newAS()
				a.clients.m["c1"] = newClient("c1", tConf, all...)
				code := func(scope, prompt string) *flowv1.TokenRequest {
					return exchangeReq(issA, "c1", a.mustCode(issA, "alice", "c1", scope, prompt), redir1, verifierOK)
				}
				var q *flowv1.TokenRequest
				switch kind {
				case "cc":
					q = ccReq(issA, "c1", sp("read"), sp("urn:x"))
				case "code":
					q = code("openid offline_access read", "consent")
				case "refresh", "tx":
					r, err := a.tok.Token(bg, code("openid offline_access read", "consent"))
					if err != nil {
						panic(err)
					}
					q = refreshReq(issA, "c1", r.RefreshToken.Value)
					if kind == "tx" {
						q = txReq(issA, "c1", r.AccessToken.Value, nil, nil)
					}
				case "device":
					d, err := a.dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: "c1", Scope: sp("openid read")})
					if err != nil {
						panic(err)
					}
					if _, err = a.dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: issA, UserCode: d.UserCode, Subject: "alice"}); err != nil {
						panic(err)
					}
					q = pollReq(issA, "c1", d.DeviceCode)
				}
				cl := newClient("c1", sh.typ, sh.g(kind)...)
				for _, e := range es {
					e.set(cl.ProtoReflect())
				}
				a.clients.m["c1"] = cl
				c.Step()
				switch kind {
				case "authorize":
					res, err := a.authorize(issA, "alice", "c1", authReq("c1"))
					return "code", err == nil && res.GetCode() != ""
				case "push":
					res, err := a.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: issA, Client: proto.Clone(cl).(clientT), Request: authReq("c1")})
					return fmt.Sprint("reference for ", res.GetExpiresIn()), err == nil && res.GetRequestUri() != ""
				case "device authorize":
					res, err := a.dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: "c1"})
					return fmt.Sprint("device code for ", res.GetExpiresIn(), res.GetInterval()), err == nil && res.GetDeviceCode() != ""
				}
				q.Client = proto.Clone(cl).(clientT)
				res, err := a.tok.Token(bg, q)
				if m := shape(res, err); m != "" {
					return m, true
				}
				show := ""
				for _, t := range []*tokenv1.Token{res.GetAccessToken(), res.GetRefreshToken()} {
					m := t.GetMetadata()
					show += fmt.Sprintf("[%s %s %s %s %q %q %d %d %s]", t.GetTokenType(), t.GetStatus(), m.GetSubject(), m.GetClientId(), m.GetScope(), m.GetAudience(), m.GetIssuedAt(), m.GetExpiresAt(), jktOf(t.GetConfirmation()))
				}
				return show, granted(res)
			}
			var want string
			var may, known bool
			try := func(key string, es ...member) {
				c.Case(fmt.Sprintf("registered %s, %s: %s", kind, sh.name, key), func() string {
					if !known {
						want, may = run()
						known = true
					}
					got, ok := run(es...)
					c.State(kind + sh.name + key)
					c.Outcome(fmt.Sprintf("registered %s granted=%v", kind, ok))
					switch {
					case ok && !may:
						return "granted to a client which must not have it: " + got
					case ok && got != want:
						return fmt.Sprintf("the answer is %s, without these members %s", got, want)
					}
					return ""
				})
			}
			for i, e := range extras {
				try(fmt.Sprintf("%s=%s", e.field, e.name), e)
				for _, f := range extras[i+1:] {
					if f.field != e.field {
						try(fmt.Sprintf("%s=%s %s=%s", e.field, e.name, f.field, f.name), e, f)
					}
				}
			}
			try("everything", extras...)
		}
	}
}

// member is one member of a client's registration, with a value.
type member struct {
	field, name string
	set         func(m protoreflect.Message)
}

// clientMembers enumerates the members of a client's registration, other than those given,
// each with its notable values.
func clientMembers(decides ...string) []member {
	var extras []member
	fs := (&clientv1.Client{}).ProtoReflect().Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if slices.Contains(decides, string(fd.Name())) {
			continue
		}
		add := func(name string, v protoreflect.Value) {
			extras = append(extras, member{string(fd.Name()), name, func(m protoreflect.Message) { m.Set(fd, v) }})
		}
		switch {
		case fd.IsList():
			add("one", func() protoreflect.Value {
				l := (&clientv1.Client{}).ProtoReflect().NewField(fd)
				l.List().Append(protoreflect.ValueOfString("admin@example.com"))
				return l
			}())
		case fd.Kind() == protoreflect.StringKind:
			for _, s := range map[string][]string{
				"application_type":           {"web", "native", "service"},
				"subject_type":               {"public", "pairwise"},
				"client_name":                {"", "m2m", "c1", "c2"},
				"token_endpoint_auth_method": {"private_key_jwt", "none", "attest_jwt_client_auth", "client_secret_basic"},
			}[string(fd.Name())] {
				add(s, protoreflect.ValueOfString(s))
			}
			add("https", protoreflect.ValueOfString("https://value.example/x"))
		case fd.Kind() == protoreflect.BytesKind:
			for _, s := range []string{"secret", `{"keys":[]}`, string(jwks(jwkMap(keyA(), false, map[string]any{"kid": "kA"})))} {
				add(fmt.Sprintf("%.16q", s), protoreflect.ValueOfBytes([]byte(s)))
			}
		case fd.Kind() == protoreflect.BoolKind:
			add("true", protoreflect.ValueOfBool(true))
		case fd.Kind() == protoreflect.EnumKind:
			for i := 0; i < fd.Enum().Values().Len(); i++ {
				v := fd.Enum().Values().Get(i)
				add(string(v.Name()), protoreflect.ValueOfEnum(v.Number()))
			}
		default:
			panic("a registration member of an unknown kind: " + string(fd.Name()))
		}
	}
	return extras
}

// authMembers enumerates what else is registered for a client which authenticates, one and
// two members at a time: it needs its registered keys, whatever the rest. try returns the
// answer to an assertion for the given client, and whether the assertion is valid.
func authMembers(c *x.Ctx, kinds []string, try func(kind string, register func(*clientv1.Client)) (*clientv1.AuthenticateResponse, error, bool)) {
	extras := clientMembers("client_id", "jwks")
	for _, kind := range kinds {
		one := func(key string, es ...member) {
			c.Case(fmt.Sprintf("registered, %s: %s", kind, key), func() string {
				c.Step()
				res, err, valid := try(kind, func(cl *clientv1.Client) {
					for _, e := range es {
						e.set(cl.ProtoReflect())
					}
				})
				c.State(kind + key)
				c.Outcome(fmt.Sprintf("registered valid=%v authenticated=%v", valid, err == nil))
				if m := authShape(res, err); m != "" {
					return m
				}
				if err == nil && !valid {
					return "an invalid assertion was accepted for " + res.Client.ClientId
				}
				return ""
			})
		}
		one("nothing")
		for i, e := range extras {
			one(fmt.Sprintf("%s=%s", e.field, e.name), e)
			for _, f := range extras[i+1:] {
				if f.field != e.field {
					one(fmt.Sprintf("%s=%s %s=%s", e.field, e.name, f.field, f.name), e, f)
				}
			}
		}
		one("everything", extras...)
	}
}

// strangers enumerates what is registered for a client which presents an artefact of
// another one, one and two members at a time: it stays useless to it.
func strangers(c *x.Ctx, kinds ...string) {
	all := []string{gtCode, gtCC, gtRefresh, gtDevice, gtExchange}
	extras := clientMembers("client_id", "grant_types", "redirect_uris", "response_types", "response_modes")
	for _, kind := range kinds {
		kind := kind
		both := false
		one := func(key string, es ...member) {
			both := both
			c.Case(fmt.Sprintf("%s presented by another client registered with %s", kind, key), func() string {
				a := newAS()
				a.clients.m["c1"] = newClient("c1", tConf, all...)
				a.clients.m["c2"] = newClient("c2", tConf, all...)
				for _, e := range es {
					e.set(a.clients.m["c2"].ProtoReflect())
					if both {
						e.set(a.clients.m["c1"].ProtoReflect())
					}
				}
				thief := func() clientT { return proto.Clone(a.clients.m["c2"]).(clientT) }
				c.Step()
				c.State(kind + key)
				code := exchangeReq(issA, "c1", a.mustCode(issA, "alice", "c1", "openid offline_access read", "consent"), redir1, verifierOK)
				q := code
				switch kind {
				case "code":
				case "request_uri":
					reg, err := a.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: issA, Client: cli("c1"), Request: authReq("c1")})
					if err != nil {
						return err.Error()
					}
					res, err := a.auth.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: issA, Subject: "alice", Client: thief(), Request: &flowv1.AuthorizationRequest{RequestUri: &reg.RequestUri}})
					if err == nil || res.GetCode() != "" {
						return fmt.Sprintf("a code for %s", res.GetClientId())
					}
					return ""
				case "device code":
					d, err := a.dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: "c1", Scope: sp("openid read")})
					if err != nil {
						return err.Error()
					}
					if _, err = a.dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: issA, UserCode: d.UserCode, Subject: "alice"}); err != nil {
						return err.Error()
					}
					q = pollReq(issA, "c1", d.DeviceCode)
				default:
					r, err := a.tok.Token(bg, code)
					if err != nil {
						return err.Error()
					}
					if kind == "refresh token" {
						q = refreshReq(issA, "c1", r.RefreshToken.Value)
						break
					}
					for _, v := range []string{r.AccessToken.Value, r.RefreshToken.Value} {
						if _, err := a.tok.Revoke(bg, &tokenv1.RevokeRequest{Issuer: issA, Client: thief(), Token: v}); err == nil {
							return "another client revokes it"
						}
						i, err := a.tok.Introspect(bg, &tokenv1.IntrospectRequest{Issuer: issA, Client: cli("c1"), Token: v})
						if err != nil || i.GetToken().GetStatus() != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
							return fmt.Sprintf("revoked by another client: %v %v", i, err)
						}
					}
					return ""
				}
				q.Client = thief()
				res, err := a.tok.Token(bg, q)
				if m := shape(res, err); m != "" {
					return m
				}
				if granted(res) {
					return fmt.Sprintf("tokens for %s", res.AccessToken.GetMetadata().GetClientId())
				}
				return ""
			})
		}
		one("nothing")
		for _, both = range []bool{true, false} {
			for i, e := range extras {
				one(fmt.Sprintf("%s%s=%s", map[bool]string{true: "the same "}[both], e.field, e.name), e)
				for _, f := range extras[i+1:] {
					if f.field != e.field {
						one(fmt.Sprintf("%s%s=%s %s=%s", map[bool]string{true: "the same "}[both], e.field, e.name, f.field, f.name), e, f)
					}
				}
			}
		}
		one("everything", extras...)
	}
}
