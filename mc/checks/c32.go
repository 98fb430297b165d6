package checks

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	discoveryv1 "zntr.io/solid/api/oidc/discovery/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/rfcerrors"
	"zntr.io/solid/sdk/types"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/profile"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C32", Run: c32,
		Rule: "every message type x every pair of fields x every pair of values: the JSON text is the independent rendering of the message and reads back as it; every member replaced by every wrongly typed value, unknown members, every cut of the text"})
	x.Register(&x.Check{ID: "C33", Race: true, Run: c33,
		Rule: "every history of operations on error builders, profile views and client contexts to the depth against a reference; every pair of concurrent operations on them within the preemption bound with the race detector"})
}

// keep the packages of every message type linked in
var _ = []proto.Message{&clientv1.Client{}, &corev1.Error{}, &discoveryv1.ServerMetadata{}, &flowv1.TokenRequest{}, &resourcev1.Resource{}, &sessionv1.DeviceCodeSession{}, &tokenv1.Token{}}

func messageTypes() []protoreflect.MessageType {
	var out []protoreflect.MessageType
	protoregistry.GlobalTypes.RangeMessages(func(t protoreflect.MessageType) bool {
		if strings.HasPrefix(string(t.Descriptor().FullName()), "oidc.") && !t.Descriptor().IsMapEntry() {
			out = append(out, t)
		}
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Descriptor().FullName() < out[j].Descriptor().FullName() })
	return out
}

// scalars are the test values of a kind.
func scalars(fd protoreflect.FieldDescriptor) []protoreflect.Value {
	var out []protoreflect.Value
	switch fd.Kind() {
	case protoreflect.StringKind:
		for _, s := range []string{"", "v", "a b", `q " \ <>&`, "é\u2028\U0001F600", "null", "\t\n\x00\x7f", strings.Repeat("y", 300)} {
			out = append(out, protoreflect.ValueOfString(s))
		}
	case protoreflect.BytesKind:
		for _, s := range []string{"", "\x00", "ab?>", "\xff\xfe\xfd", `{"keys":[]}`} {
			out = append(out, protoreflect.ValueOfBytes([]byte(s)))
		}
	case protoreflect.BoolKind:
		out = append(out, protoreflect.ValueOfBool(false), protoreflect.ValueOfBool(true))
	case protoreflect.EnumKind:
		for i := 0; i < fd.Enum().Values().Len(); i++ {
			out = append(out, protoreflect.ValueOfEnum(fd.Enum().Values().Get(i).Number()))
		}
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		for _, n := range []uint64{0, 1, 3600, 1 << 53, 1<<53 + 1, math.MaxUint64} {
			out = append(out, protoreflect.ValueOfUint64(n))
		}
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		for _, n := range []uint32{0, 1, math.MaxUint32} {
			out = append(out, protoreflect.ValueOfUint32(n))
		}
	}
	return out
}

// values are the test values of a field of the message.
func values(m protoreflect.Message, fd protoreflect.FieldDescriptor, depth int) []protoreflect.Value {
	if fd.IsMap() {
		var out []protoreflect.Value
		for _, e := range [][]string{{"fr", "v"}, {"", "a b"}, {"fr", ""}, {"fr", "v", "fr-CA", `q " <>&`, "\u00e9", "\u2028"}} {
			mv := m.NewField(fd)
			for i := 0; i+1 < len(e); i += 2 {
				mv.Map().Set(protoreflect.ValueOfString(e[i]).MapKey(), protoreflect.ValueOfString(e[i+1]))
			}
			out = append(out, mv)
		}
		return out
	}
	elem := func() []protoreflect.Value {
		if fd.Kind() != protoreflect.MessageKind {
			return scalars(fd)
		}
		nm := func() protoreflect.Message {
			if fd.IsList() {
				return m.NewField(fd).List().NewElement().Message()
			}
			return m.NewField(fd).Message()
		}
		out := []protoreflect.Value{protoreflect.ValueOfMessage(nm())}
		if depth > 0 {
			fs := nm().Descriptor().Fields()
			for i := 0; i < fs.Len(); i++ {
				vs := values(nm(), fs.Get(i), depth-1)
				if len(vs) > 3 {
					vs = vs[:3]
				}
				for _, v := range vs {
					e := nm()
					e.Set(fs.Get(i), v)
					out = append(out, protoreflect.ValueOfMessage(e))
				}
			}
		}
		return out
	}
	es := elem()
	if !fd.IsList() {
		return es
	}
	var out []protoreflect.Value
	for i := range es {
		l := m.NewField(fd)
		l.List().Append(es[i])
		out = append(out, l)
		l2 := m.NewField(fd)
		l2.List().Append(es[i])
		l2.List().Append(es[(i+1)%len(es)])
		l2.List().Append(es[i])
		out = append(out, l2)
	}
	return out
}

// render is the JSON value a message stands for, written independently of protojson.
func render(m protoreflect.Message) map[string]any {
	out := map[string]any{}
	fs := m.Descriptor().Fields()
	one := func(fd protoreflect.FieldDescriptor, v protoreflect.Value) any {
		switch fd.Kind() {
		case protoreflect.StringKind:
			return v.String()
		case protoreflect.BytesKind:
			return base64.StdEncoding.EncodeToString(v.Bytes())
		case protoreflect.BoolKind:
			return v.Bool()
		case protoreflect.EnumKind:
			return string(fd.Enum().Values().ByNumber(v.Enum()).Name())
		case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
			return fmt.Sprint(v.Uint())
		case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
			return float64(v.Uint())
		case protoreflect.MessageKind:
			return render(v.Message())
		}
		panic("kind " + fd.Kind().String())
	}
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		n := string(fd.Name())
		switch {
		case fd.IsMap():
			l := map[string]any{}
			m.Get(fd).Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
				l[k.String()] = v.String()
				return true
			})
			out[n] = l
		case fd.IsList():
			l := []any{}
			for k := 0; k < m.Get(fd).List().Len(); k++ {
				l = append(l, one(fd, m.Get(fd).List().Get(k)))
			}
			out[n] = l
		case fd.HasPresence() && !m.Has(fd):
			if fd.Kind() == protoreflect.MessageKind && !fd.HasOptionalKeyword() && fd.ContainingOneof() == nil {
				out[n] = nil
			}
		default:
			out[n] = one(fd, m.Get(fd))
		}
	}
	return out
}

func c32(c *x.Ctx) {
	wrong := []string{`{"x":1}`, `[[1]]`, `[{}]`, `tru`, `"\ud800"`, `-1`, `1.5`, `1e400`, `99999999999999999999`, `true`, `"text!"`, `5`}
	for _, t := range messageTypes() {
		t := t
		name := string(t.Descriptor().FullName())
		if _, ok := t.New().Interface().(json.Marshaler); !ok {
			continue
		}
		fs := t.Descriptor().Fields()
		check := func(m protoreflect.Message) string {
			c.Step()
			before := proto.Clone(m.Interface())
			b, err := json.Marshal(m.Interface())
			if err != nil {
				return "marshal: " + err.Error()
			}
			if !proto.Equal(before, m.Interface()) {
				return "marshaling modified the message"
			}
			var got map[string]any
			if err := json.Unmarshal(b, &got); err != nil {
				return "not JSON: " + err.Error()
			}
			want := render(m)
			for k, v := range got {
				if _, ok := want[k]; !ok && v != nil {
					return fmt.Sprintf("the text has a member %q with %v", k, v)
				}
			}
			for k, v := range want {
				if !reflect.DeepEqual(clean(v), clean(got[k])) {
					return fmt.Sprintf("member %q is %v, want %v", k, got[k], v)
				}
			}
			back := t.New().Interface()
			if err := json.Unmarshal(b, back); err != nil {
				return "unmarshal: " + err.Error()
			}
			if !proto.Equal(back, before) {
				return fmt.Sprintf("read back %v, wrote %v", back, before)
			}
			got["not_a_field"] = map[string]any{"x": []any{1, nil}}
			b2, _ := json.Marshal(got)
			other := t.New()
			for i := 0; i < fs.Len(); i++ {
				if vs := values(other, fs.Get(i), 0); len(vs) > 1 && fs.Get(i).ContainingOneof() == nil {
					other.Set(fs.Get(i), vs[1])
				}
			}
			if err := json.Unmarshal(b2, other.Interface()); err != nil {
				return "with an unknown member: " + err.Error()
			}
			if !proto.Equal(other.Interface(), before) {
				return "reading into a used message or with an unknown member gives something else"
			}
			return ""
		}
		c.Case(name+" empty", func() string { return check(t.New()) })
		for i := 0; i < fs.Len(); i++ {
			vi := values(t.New(), fs.Get(i), 2)
			for j := i; j < fs.Len(); j++ {
				vj := values(t.New(), fs.Get(j), 1)
				if i == j {
					vj = []protoreflect.Value{{}}
				} else if !c.Thorough() && len(vj) > 4 {
					vj = vj[:4]
				}
				for a, v1 := range vi {
					if i != j && !c.Thorough() && a > 8 {
						break
					}
					for b, v2 := range vj {
						i, j, v1, v2 := i, j, v1, v2
						c.Case(fmt.Sprintf("%s %s#%d %s#%d", name, fs.Get(i).Name(), a, fs.Get(j).Name(), b), func() string {
							m := t.New()
							m.Set(fs.Get(i), v1)
							if i != j {
								m.Set(fs.Get(j), v2)
							}
							c.State(name)
							return check(m)
						})
					}
				}
			}
			for wi, w := range wrong {
				i, w := i, w
				c.Case(fmt.Sprintf("%s %s wrong %d", name, fs.Get(i).Name(), wi), func() string {
					c.Step()
					back := t.New().Interface()
					text := fmt.Sprintf(`{%q:%s}`, fs.Get(i).Name(), w)
					if err := json.Unmarshal([]byte(text), back); err != nil {
						c.Outcome("refused")
						return ""
					}
					// an accepted value must be what it says
					c.Outcome("accepted")
					var in, out map[string]any
					b, err := json.Marshal(back)
					if err != nil {
						return err.Error()
					}
					json.Unmarshal([]byte(text), &in)
					json.Unmarshal(b, &out)
					k := string(fs.Get(i).Name())
					if _, num := in[k].(float64); num || fs.Get(i).Kind() == protoreflect.MessageKind || (fs.Get(i).Kind() == protoreflect.EnumKind && strings.HasSuffix(fmt.Sprint(out[k]), "_UNSPECIFIED")) || fs.Get(i).Kind() == protoreflect.BytesKind {
						return ""
					}
					if !reflect.DeepEqual(in[k], out[k]) {
						return fmt.Sprintf("%s is read as %v", text, out[k])
					}
					return ""
				})
			}
		}
		c.Case(name+" cut", func() string {
			m := t.New()
			for i := 0; i < fs.Len(); i++ {
				if vs := values(m, fs.Get(i), 1); len(vs) > 1 && fs.Get(i).ContainingOneof() == nil {
					m.Set(fs.Get(i), vs[1])
				}
			}
			b, err := json.Marshal(m.Interface())
			if err != nil {
				return err.Error()
			}
			for n := 0; n < len(b); n++ {
				c.Step()
				back := t.New().Interface()
				if json.Unmarshal(b[:n], back) == nil {
					return fmt.Sprintf("the first %d of %d bytes are accepted", n, len(b))
				}
			}
			return ""
		})
	}
}

// clean drops absent members: whether an unset one is written as null or left out is open.
func clean(v any) any {
	switch m := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, e := range m {
			if e != nil {
				out[k] = clean(e)
			}
		}
		return out
	case []any:
		out := []any{}
		for _, e := range m {
			out = append(out, clean(e))
		}
		return out
	}
	return v
}

type errKind struct {
	name string
	mk   func() rfcerrors.ErrorBuilder
	code string
}

func errKinds() []errKind {
	return []errKind{
		{"ServerError", rfcerrors.ServerError, "server_error"}, {"InvalidRequest", rfcerrors.InvalidRequest, "invalid_request"}, {"InvalidScope", rfcerrors.InvalidScope, "invalid_scope"},
		{"InvalidGrant", rfcerrors.InvalidGrant, "invalid_grant"}, {"InvalidClient", rfcerrors.InvalidClient, "invalid_client"}, {"UnauthorizedClient", rfcerrors.UnauthorizedClient, "unauthorized_client"},
		{"UnsupportedGrantType", rfcerrors.UnsupportedGrantType, "unsupported_grant_type"}, {"InvalidToken", rfcerrors.InvalidToken, "invalid_token"}, {"AuthorizationPending", rfcerrors.AuthorizationPending, "authorization_pending"},
		{"Slowdown", rfcerrors.Slowdown, "slow_down"}, {"AccessDenied", rfcerrors.AccessDenied, "access_denied"}, {"InvalidDPoPProof", rfcerrors.InvalidDPoPProof, "invalid_dpop_proof"},
		{"InvalidRedirectURI", rfcerrors.InvalidRedirectURI, "invalid_redirect_uri"}, {"InvalidClientMetadata", rfcerrors.InvalidClientMetadata, "invalid_client_metadata"},
		{"InvalidSoftwareStatement", rfcerrors.InvalidSoftwareStatement, "invalid_software_statement"}, {"UnapprovedSoftwareStatement", rfcerrors.UnapprovedSoftwareStatement, "unapproved_software_statement"},
		{"InvalidTarget", rfcerrors.InvalidTarget, "invalid_target"}, {"InsufficientUserAuthentication", rfcerrors.InsufficientUserAuthentication, "insufficient_user_authentication"},
		{"TokenExpired", rfcerrors.TokenExpired, "token_expired"},
	}
}

// the profile, as documented
var strictWant = map[string][4][]string{
	"web":     {{"authorization_code"}, {"private_key_jwt"}, {"code"}, nil},
	"native":  {{"authorization_code", "refresh_token"}, {"private_key_jwt"}, {"code"}, nil},
	"device":  {{gtDevice, "refresh_token"}, {"private_key_jwt"}, {"code"}, nil},
	"service": {{"client_credentials"}, {"private_key_jwt"}, {"token"}, nil},
}

func c33(c *x.Ctx) {
	kinds := errKinds()
	desc := map[string]string{}
	for _, k := range kinds {
		desc[k.name] = k.mk().Build().ErrorDescription
	}
	okText := func(s string) bool {
		for _, r := range s {
			if r < 0x20 || r > 0x7e || r == '"' || r == '\\' {
				return false
			}
		}
		return s != ""
	}
	same := func(e *corev1.Error, code, d, state string) string {
		if e == nil || e.Err != code || e.ErrorDescription != d || e.GetState() != state || (e.State != nil) != (state != "") || e.GetErrorUri() != "" || e.GetResource() != "" {
			return fmt.Sprintf("built %v, want %s %q state %q", e, code, d, state)
		}
		return ""
	}
	for _, k := range kinds {
		k := k
		c.Case("error "+k.name, func() string {
			if !okText(desc[k.name]) {
				return "the description is not one of RFC 6749: " + desc[k.name]
			}
			return same(k.mk().Build(), k.code, desc[k.name], "")
		})
	}
	for n, t := range append([]string{" ", "  ", "\t", "\n", "\u00a0"}, texts...) {
		for _, k := range kinds {
			n, t, k := n, t, k
			c.Case(fmt.Sprintf("error %s with text %d as state and description", k.name, n), func() string {
				c.Step()
				if m := same(k.mk().State(t).Build(), k.code, desc[k.name], t); m != "" {
					return m
				}
				return same(k.mk().Description(t).State(t).Build(), k.code, t, t)
			})
		}
	}
	texts := []string{"", "s1", "s2 \u00e9"}
	depth := c.Q(5, 6)
	c.Bound("builder history depth", fmt.Sprint(depth))
	for a := range kinds {
		for b := range kinds {
			if b < a || (!c.Thorough() && b > a+1) {
				continue
			}
			a, b := a, b
			c.Histories("builders "+kinds[a].name+" "+kinds[b].name, func(h *x.H) string {
				ks := []errKind{kinds[a], kinds[b]}
				bs := []rfcerrors.ErrorBuilder{ks[0].mk(), ks[1].mk()}
				st, ds := []string{"", ""}, []string{desc[ks[0].name], desc[ks[1].name]}
				type built struct {
					e       *corev1.Error
					c, d, s string
				}
				var all []built
				for i := 0; i < depth-c.Q(1, 2); i++ {
					w := h.Choose(2)
					c.Step()
					switch h.Choose(4) {
					case 0:
						t := texts[h.Choose(len(texts))]
						h.Label(fmt.Sprintf("%d.State(%q)", w, t))
						bs[w] = bs[w].State(t)
						st[w] = t
					case 1:
						d := []string{"d", ""}[h.Choose(2)]
						h.Label(fmt.Sprintf("%d.Description(%q)", w, d))
						bs[w] = bs[w].Description(d)
						ds[w] = d
					case 2:
						h.Label(fmt.Sprintf("%d.Build", w))
						all = append(all, built{bs[w].Build(), ks[w].code, ds[w], st[w]})
					case 3:
						h.Label(fmt.Sprintf("%d=new", w))
						bs[w], st[w], ds[w] = ks[w].mk(), "", desc[ks[w].name]
					}
					for _, v := range all {
						if m := same(v.e, v.c, v.d, v.s); m != "" {
							return m
						}
					}
				}
				for w := range bs {
					if m := same(bs[w].Build(), ks[w].code, ds[w], st[w]); m != "" {
						return m
					}
					e := bs[w].Build()
					e.Err, e.ErrorDescription = "mine", "mine"
					if m := same(bs[w].Build(), ks[w].code, ds[w], st[w]); m != "" {
						return "after a built error was edited: " + m
					}
				}
				return ""
			})
		}
	}
	// profile: any edit of what one caller got
	view := func(p profile.Client) []types.StringArray {
		return []types.StringArray{p.GrantTypesSupported(), p.TokenEndpointAuthMethodsSupported(), p.ResponseTypesSupported(), p.DefaultScopes()}
	}
	var names []string
	for n := range strictWant {
		names = append(names, n)
	}
	sort.Strings(names)
	intact := func() string {
		for _, n := range append(append([]string{}, names...), "", "browser", "Web", "Native", "native ", "x") {
			p, ok := profile.Strict().ApplicationType(n)
			w, known := strictWant[n]
			if ok != known {
				return fmt.Sprintf("application type %q known=%v", n, ok)
			}
			if !known {
				continue
			}
			for i, v := range view(p) {
				if len(v) != len(w[i]) || (len(v) > 0 && !reflect.DeepEqual([]string(v), w[i])) {
					return fmt.Sprintf("%s offers %v, want %v", n, v, w[i])
				}
			}
		}
		return ""
	}
	c.Case("strict profile", intact)
	c.Histories("profile", func(h *x.H) string {
		var held []types.StringArray
		for i := 0; i < c.Q(2, 3); i++ {
			n := names[h.Choose(len(names))]
			p, ok := profile.Strict().ApplicationType(n)
			if !ok {
				return n + " is not known"
			}
			v := view(p)[h.Choose(4)]
			h.Label(n)
			c.Step()
			switch h.Choose(4) {
			case 0:
				if len(v) > 0 {
					v[0] = "password"
				}
			case 1:
				if len(v) > 0 {
					(&v).Remove(v[0])
				}
			case 2:
				(&v).AddIfNotContains("implicit")
			case 3:
				held = append(held, v)
			}
			if m := intact(); m != "" {
				return "after one caller edited what it got: " + m
			}
		}
		_ = held
		return ""
	})
	// contexts
	cls := []*clientv1.Client{{ClientId: "a"}, {ClientId: "b"}, nil}
	type other string
	c.Histories("contexts", func(h *x.H) string {
		type node struct {
			ctx  context.Context
			want *clientv1.Client
			set  bool
		}
		ns := []node{{bg, nil, false}}
		for i := 0; i < depth-1; i++ {
			from := ns[h.Choose(len(ns))]
			c.Step()
			switch k := h.Choose(len(cls) + 3); k {
			case len(cls):
				ns = append(ns, node{context.WithValue(from.ctx, "client", cls[0]), from.want, from.set})
			case len(cls) + 1:
				ns = append(ns, node{context.WithValue(from.ctx, other("client"), cls[1]), from.want, from.set})
			case len(cls) + 2:
				cc, cancel := context.WithCancel(from.ctx)
				cancel()
				ns = append(ns, node{cc, from.want, from.set})
			default:
				ns = append(ns, node{clientauthentication.Inject(from.ctx, cls[k]), cls[k], true})
			}
			for _, n := range ns {
				g, ok := clientauthentication.FromContext(n.ctx)
				if ok != n.set || g != n.want {
					return fmt.Sprintf("the context carries %v %v, want %v %v", g, ok, n.want, n.set)
				}
			}
		}
		return ""
	})
	// concurrent use
	type op struct {
		name string
		f    func(p string) string
	}
	ops := []op{
		{"state", func(p string) string { return rfcerrors.InvalidGrant().State(p).Build().GetState() + "=" + p }},
		{"plain", func(p string) string { return rfcerrors.InvalidGrant().Build().GetState() + "=" }},
		{"description", func(p string) string {
			return rfcerrors.InvalidGrant().Description(p).Build().ErrorDescription + "=" + p
		}},
		{"context", func(p string) string {
			g, _ := clientauthentication.FromContext(clientauthentication.Inject(bg, &clientv1.Client{ClientId: p}))
			return g.GetClientId() + "=" + p
		}},
		{"profile", func(p string) string {
			q, ok := profile.Strict().ApplicationType("native")
			if !ok || len(q.GrantTypesSupported()) != 2 || len(q.ResponseTypesSupported()) != 1 {
				return "lost="
			}
			return "="
		}},
		{"profile edit", func(p string) string {
			q, _ := profile.Strict().ApplicationType("native")
			g := q.GrantTypesSupported()
			(&g).Remove("authorization_code")
			(&g).AddIfNotContains(p)
			return strings.Join(g, ",") + "=refresh_token," + p
		}},
	}
	for i := range ops {
		for j := i; j < len(ops); j++ {
			i, j := i, j
			c.Whole("concurrent", ops[i].name+" || "+ops[j].name, c.Q(3, 4), func() *x.World {
				got := make([]string, 2)
				return &x.World{Threads: []func(){func() { got[0] = ops[i].f("p") }, func() { got[1] = ops[j].f("q") }}, Check: func() string {
					for _, g := range got {
						if k := strings.IndexByte(g, '='); g[:k] != g[k+1:] {
							return g
						}
					}
					return intact()
				}, Outcome: func() string { return "isolated" }}
			})
		}
	}
}
