package checks

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C35", Run: c35,
		Rule: "every remote method x every field value of its request and of its response x every status of the service x every interceptor, every history of calls to the depth and every pair of overlapping calls through one connection with all services registered, against a direct call of the service"})
}

// service is one implementation of every remote service: it records what it is asked and
// answers what it is told to.
type service struct {
	asked  []string // method: request
	ctx    context.Context
	kept   [][2]proto.Message // what was handed over, and what it was then
	answer func(method string, in proto.Message) (proto.Message, error)
}

func (s *service) keep(m proto.Message) { s.kept = append(s.kept, [2]proto.Message{m, proto.Clone(m)}) }

// changed tells whether a message handed over before has changed since.
func (s *service) changed() string {
	for _, k := range s.kept {
		if !proto.Equal(k[0], k[1]) {
			return fmt.Sprintf("what was handed over as %v is %v after other calls", k[1], k[0])
		}
	}
	return ""
}

func (s *service) do(ctx context.Context, method string, in proto.Message) (proto.Message, error) {
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(in)
	s.asked = append(s.asked, fmt.Sprintf("%s %s %x", method, in.ProtoReflect().Descriptor().FullName(), b))
	s.ctx = ctx
	s.keep(in)
	rt.P()
	return s.answer(method, in)
}

func ask[T proto.Message](s *service, ctx context.Context, method string, in proto.Message) (T, error) {
	var zero T
	m, err := s.do(ctx, method, in)
	if m == nil {
		return zero, err
	}
	return m.(T), err
}

func (s *service) Authenticate(ctx context.Context, in *clientv1.AuthenticateRequest) (*clientv1.AuthenticateResponse, error) {
	return ask[*clientv1.AuthenticateResponse](s, ctx, "/oidc.client.v1.ClientAuthenticationService/Authenticate", in)
}

func (s *service) Register(ctx context.Context, in *clientv1.RegisterRequest) (*clientv1.RegisterResponse, error) {
	return ask[*clientv1.RegisterResponse](s, ctx, "/oidc.client.v1.ClientRegistrationService/Register", in)
}

func (s *service) Authorize(ctx context.Context, in *flowv1.AuthorizeRequest) (*flowv1.AuthorizeResponse, error) {
	return ask[*flowv1.AuthorizeResponse](s, ctx, "/oidc.flow.v1.AuthorizationService/Authorize", in)
}

func (s *service) Token(ctx context.Context, in *flowv1.TokenRequest) (*flowv1.TokenResponse, error) {
	return ask[*flowv1.TokenResponse](s, ctx, "/oidc.flow.v1.AuthorizationService/Token", in)
}

func (s *service) Introspect(ctx context.Context, in *tokenv1.IntrospectRequest) (*tokenv1.IntrospectResponse, error) {
	return ask[*tokenv1.IntrospectResponse](s, ctx, "/oidc.token.v1.IntrospectionService/Introspect", in)
}

func (s *service) Revoke(ctx context.Context, in *tokenv1.RevokeRequest) (*tokenv1.RevokeResponse, error) {
	return ask[*tokenv1.RevokeResponse](s, ctx, "/oidc.token.v1.RevocatonService/Revoke", in)
}

// wiring stands for a connection and a server at its other end: what passes it passes in
// the binary form, as errors of a status.
type wiring struct {
	srv   map[string]any
	desc  map[string]*grpc.ServiceDesc
	inter grpc.UnaryServerInterceptor
	err   error // of the connection
	cut   bool  // the request does not arrive whole
	calls []string
	opts  []grpc.CallOption
	stubs map[string]any
}

func (w *wiring) RegisterService(d *grpc.ServiceDesc, impl any) {
	if w.desc[d.ServiceName] != nil {
		panic("service registered twice: " + d.ServiceName)
	}
	if t := reflect.TypeOf(d.HandlerType).Elem(); !reflect.TypeOf(impl).Implements(t) {
		panic(fmt.Sprintf("%T is not a %v", impl, t))
	}
	w.desc[d.ServiceName], w.srv[d.ServiceName] = d, impl
}

func (w *wiring) NewStream(context.Context, *grpc.StreamDesc, string, ...grpc.CallOption) (grpc.ClientStream, error) {
	return nil, errors.New("no method is a stream")
}

func (w *wiring) Invoke(ctx context.Context, method string, in, out any, opts ...grpc.CallOption) error {
	rt.P()
	defer rt.P()
	w.calls, w.opts = append(w.calls, method), opts
	if w.err != nil {
		return w.err
	}
	req, err := proto.Marshal(in.(proto.Message))
	if err != nil {
		return err
	}
	p := strings.Split(method, "/")
	if len(p) != 3 || p[0] != "" || w.desc[p[1]] == nil {
		return status.Errorf(codes.Unimplemented, "unknown service %v", method)
	}
	for _, m := range w.desc[p[1]].Methods {
		if m.MethodName != p[2] {
			continue
		}
		md, _ := metadata.FromOutgoingContext(ctx)
		res, err := m.Handler(w.srv[p[1]], metadata.NewIncomingContext(ctx, md), func(v any) error {
			if w.cut {
				return status.Error(codes.Internal, "cut")
			}
			return proto.Unmarshal(req, v.(proto.Message))
		}, w.inter)
		if err != nil {
			return status.Convert(err).Err()
		}
		b, err := proto.Marshal(res.(proto.Message))
		if err != nil {
			return err
		}
		return proto.Unmarshal(b, out.(proto.Message))
	}
	return status.Errorf(codes.Unimplemented, "unknown method %v", method)
}

func newWiring(impl *service) *wiring {
	w := &wiring{srv: map[string]any{}, desc: map[string]*grpc.ServiceDesc{}, stubs: map[string]any{}}
	clientv1.RegisterClientAuthenticationServiceServer(w, impl)
	clientv1.RegisterClientRegistrationServiceServer(w, impl)
	flowv1.RegisterAuthorizationServiceServer(w, impl)
	tokenv1.RegisterIntrospectionServiceServer(w, impl)
	tokenv1.RegisterRevocatonServiceServer(w, impl)
	return w
}

// remote is one method as its client sees it.
type remote struct {
	name string
	in   protoreflect.MessageType
	out  protoreflect.MessageType
	call func(ctx context.Context, w grpc.ClientConnInterface, in proto.Message, opts ...grpc.CallOption) (proto.Message, error)
	bare func(ctx context.Context, in proto.Message) (proto.Message, error)
}

// stub is the client of a service, one for all calls of a connection.
func stub[T any](cc grpc.ClientConnInterface, mk func(grpc.ClientConnInterface) T) T {
	w, ok := cc.(*wiring)
	if !ok {
		return mk(cc)
	}
	k := reflect.TypeOf((*T)(nil)).Elem().String()
	if w.stubs[k] == nil {
		w.stubs[k] = mk(cc)
	}
	return w.stubs[k].(T)
}

// held tells a message from a nil one of its type.
func held[T proto.Message](m T, err error) (proto.Message, error) {
	if reflect.ValueOf(m).IsNil() {
		return nil, err
	}
	return m, err
}

func remotes() []remote {
	typ := func(m proto.Message) protoreflect.MessageType { return m.ProtoReflect().Type() }
	return []remote{
		{"/oidc.client.v1.ClientAuthenticationService/Authenticate", typ(&clientv1.AuthenticateRequest{}), typ(&clientv1.AuthenticateResponse{}),
			func(ctx context.Context, w grpc.ClientConnInterface, in proto.Message, o ...grpc.CallOption) (proto.Message, error) {
				return held(stub(w, clientv1.NewClientAuthenticationServiceClient).Authenticate(ctx, in.(*clientv1.AuthenticateRequest), o...))
			}, func(ctx context.Context, in proto.Message) (proto.Message, error) {
				return held(clientv1.UnimplementedClientAuthenticationServiceServer{}.Authenticate(ctx, in.(*clientv1.AuthenticateRequest)))
			}},
		{"/oidc.client.v1.ClientRegistrationService/Register", typ(&clientv1.RegisterRequest{}), typ(&clientv1.RegisterResponse{}),
			func(ctx context.Context, w grpc.ClientConnInterface, in proto.Message, o ...grpc.CallOption) (proto.Message, error) {
				return held(stub(w, clientv1.NewClientRegistrationServiceClient).Register(ctx, in.(*clientv1.RegisterRequest), o...))
			}, func(ctx context.Context, in proto.Message) (proto.Message, error) {
				return held(clientv1.UnimplementedClientRegistrationServiceServer{}.Register(ctx, in.(*clientv1.RegisterRequest)))
			}},
		{"/oidc.flow.v1.AuthorizationService/Authorize", typ(&flowv1.AuthorizeRequest{}), typ(&flowv1.AuthorizeResponse{}),
			func(ctx context.Context, w grpc.ClientConnInterface, in proto.Message, o ...grpc.CallOption) (proto.Message, error) {
				return held(stub(w, flowv1.NewAuthorizationServiceClient).Authorize(ctx, in.(*flowv1.AuthorizeRequest), o...))
			}, func(ctx context.Context, in proto.Message) (proto.Message, error) {
				return held(flowv1.UnimplementedAuthorizationServiceServer{}.Authorize(ctx, in.(*flowv1.AuthorizeRequest)))
			}},
		{"/oidc.flow.v1.AuthorizationService/Token", typ(&flowv1.TokenRequest{}), typ(&flowv1.TokenResponse{}),
			func(ctx context.Context, w grpc.ClientConnInterface, in proto.Message, o ...grpc.CallOption) (proto.Message, error) {
				return held(stub(w, flowv1.NewAuthorizationServiceClient).Token(ctx, in.(*flowv1.TokenRequest), o...))
			}, func(ctx context.Context, in proto.Message) (proto.Message, error) {
				return held(flowv1.UnimplementedAuthorizationServiceServer{}.Token(ctx, in.(*flowv1.TokenRequest)))
			}},
		{"/oidc.token.v1.IntrospectionService/Introspect", typ(&tokenv1.IntrospectRequest{}), typ(&tokenv1.IntrospectResponse{}),
			func(ctx context.Context, w grpc.ClientConnInterface, in proto.Message, o ...grpc.CallOption) (proto.Message, error) {
				return held(stub(w, tokenv1.NewIntrospectionServiceClient).Introspect(ctx, in.(*tokenv1.IntrospectRequest), o...))
			}, func(ctx context.Context, in proto.Message) (proto.Message, error) {
				return held(tokenv1.UnimplementedIntrospectionServiceServer{}.Introspect(ctx, in.(*tokenv1.IntrospectRequest)))
			}},
		{"/oidc.token.v1.RevocatonService/Revoke", typ(&tokenv1.RevokeRequest{}), typ(&tokenv1.RevokeResponse{}),
			func(ctx context.Context, w grpc.ClientConnInterface, in proto.Message, o ...grpc.CallOption) (proto.Message, error) {
				return held(stub(w, tokenv1.NewRevocatonServiceClient).Revoke(ctx, in.(*tokenv1.RevokeRequest), o...))
			}, func(ctx context.Context, in proto.Message) (proto.Message, error) {
				return held(tokenv1.UnimplementedRevocatonServiceServer{}.Revoke(ctx, in.(*tokenv1.RevokeRequest)))
			}},
	}
}

func c35(c *x.Ctx) {
	type ctxKey struct{}
	rs := remotes()

	c.Case("the services are those of the API description", func() string {
		var want, got []string
		protoregistry.GlobalFiles.RangeFiles(func(f protoreflect.FileDescriptor) bool {
			for i := 0; i < f.Services().Len() && strings.HasPrefix(string(f.Package()), "oidc."); i++ {
				s := f.Services().Get(i)
				for j := 0; j < s.Methods().Len(); j++ {
					m := s.Methods().Get(j)
					want = append(want, fmt.Sprintf("%s/%s %s %s %s %v", s.FullName(), m.Name(), f.Path(), m.Input().FullName(), m.Output().FullName(), m.IsStreamingClient() || m.IsStreamingServer()))
				}
			}
			return true
		})
		w := newWiring(&service{})
		for _, d := range w.desc {
			for _, m := range d.Methods {
				for _, r := range rs {
					if r.name == "/"+d.ServiceName+"/"+m.MethodName {
						got = append(got, fmt.Sprintf("%s/%s %s %s %s false", d.ServiceName, m.MethodName, d.Metadata, r.in.Descriptor().FullName(), r.out.Descriptor().FullName()))
					}
				}
			}
			if len(d.Streams) != 0 {
				return "a stream in " + d.ServiceName
			}
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, "\n") != strings.Join(got, "\n") {
			return fmt.Sprintf("described %q, served %q", want, got)
		}
		return ""
	})

	// one call through a wiring, compared with what the service is asked and answers
	call := func(w *wiring, impl *service, r remote, in, out proto.Message, fail error) string {
		c.Step()
		n := len(impl.asked)
		impl.answer = func(string, proto.Message) (proto.Message, error) {
			if fail != nil {
				return out, fail
			}
			return out, nil
		}
		before := proto.Clone(in)
		ctx := metadata.AppendToOutgoingContext(context.WithValue(context.Background(), ctxKey{}, r.name), "k", r.name)
		opts := []grpc.CallOption{grpc.WaitForReady(true), grpc.MaxCallRecvMsgSize(77), grpc.MaxCallSendMsgSize(78)}[:(3+len(impl.asked))%4]
		res, err := r.call(ctx, w, in, opts...)
		if !proto.Equal(in, before) {
			return "the call modified the request"
		}
		if k := w.calls[len(w.calls)-1]; k != r.name {
			return fmt.Sprintf("%s is called as %s", r.name, k)
		}
		if len(w.opts) != len(opts) || (len(opts) > 0 && !reflect.DeepEqual(w.opts, opts)) {
			return "the call options do not reach the connection"
		}
		b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(in)
		want := fmt.Sprintf("%s %s %x", r.name, r.in.Descriptor().FullName(), b)
		if len(impl.asked) != n+1 || impl.asked[n] != want {
			return fmt.Sprintf("the service was asked %q, want %q", impl.asked[n:], want)
		}
		md, _ := metadata.FromIncomingContext(impl.ctx)
		if impl.ctx.Value(ctxKey{}) != r.name || strings.Join(md.Get("k"), ",") != r.name {
			return "the context does not reach the service"
		}
		if fail != nil {
			if res != nil || status.Code(err) != status.Code(fail) || status.Convert(err).Message() != status.Convert(fail).Message() {
				return fmt.Sprintf("a refusal %v comes back as %v, %v", fail, res, err)
			}
			c.Outcome("refused")
			return ""
		}
		if err != nil || res == nil || res.ProtoReflect().Descriptor() != r.out.Descriptor() || !proto.Equal(res, out) {
			return fmt.Sprintf("the answer %v comes back as %v, %v", out, res, err)
		}
		impl.keep(res)
		c.Outcome("answered")
		return ""
	}
	fails := []error{nil}
	for k := codes.Code(1); k <= codes.Unauthenticated; k++ {
		fails = append(fails, status.Error(k, fmt.Sprintf("refused with %d", k)))
	}
	fails = append(fails, errors.New("plain"), context.Canceled)

	for _, r := range rs {
		r := r
		for k, f := range fails {
			f := f
			for n := 0; n < c.Q(3, 6); n++ {
				for _, o := range []bool{false, true} {
					n, o := n, o
					c.Case(fmt.Sprintf("%s status %d message %d answer too %v", r.name, k, n, o), func() string {
						impl := &service{}
						in, out := proto.Message(fullMessage(r.in, n).Interface()), proto.Message(fullMessage(r.out, n+1).Interface())
						if o && n == 0 {
							in, out = r.in.New().Interface(), r.out.New().Interface()
						}
						if f != nil && !o {
							out = nil
						}
						return call(newWiring(impl), impl, r, in, out, f)
					})
				}
			}
		}
		// every value of every field of both messages
		for side, t := range []protoreflect.MessageType{r.in, r.out} {
			side := side
			for i := 0; i < t.Descriptor().Fields().Len(); i++ {
				fd := t.Descriptor().Fields().Get(i)
				for k, v := range wireValues(t.New(), fd, 2) {
					if fd.Kind() == protoreflect.EnumKind && !fd.IsList() && k > 12 {
						break
					}
					v := v
					c.Case(fmt.Sprintf("%s %d %s#%d", r.name, side, fd.Name(), k), func() string {
						m := []proto.Message{fullMessage(r.in, 0).Interface(), fullMessage(r.out, 0).Interface()}
						m[side].ProtoReflect().Set(fd, v)
						impl := &service{}
						return call(newWiring(impl), impl, r, m[0], m[1], nil)
					})
				}
			}
		}
		c.Case(r.name+" not implemented", func() string {
			c.Step()
			res, err := r.bare(context.Background(), fullMessage(r.in, 0).Interface())
			if res != nil || status.Code(err) != codes.Unimplemented {
				return fmt.Sprintf("answers %v, %v", res, err)
			}
			return ""
		})
		c.Case(r.name+" broken connection", func() string {
			c.Step()
			impl := &service{}
			w := newWiring(impl)
			w.err = status.Error(codes.Unavailable, "gone")
			res, err := r.call(context.Background(), w, fullMessage(r.in, 0).Interface())
			if res != nil || err != w.err || len(impl.asked) != 0 {
				return fmt.Sprintf("gives %v, %v; asked %q", res, err, impl.asked)
			}
			return ""
		})
		for kind := 0; kind < 6; kind++ {
			for _, cut := range []bool{false, true} {
				kind, cut := kind, cut
				c.Case(fmt.Sprintf("%s interceptor %d cut %v", r.name, kind, cut), func() string {
					c.Step()
					impl := &service{}
					out := proto.Message(fullMessage(r.out, 1).Interface())
					impl.answer = func(string, proto.Message) (proto.Message, error) { return out, nil }
					w := newWiring(impl)
					w.cut = cut
					seen := 0
					in, other := fullMessage(r.in, 0).Interface(), fullMessage(r.in, 2).Interface()
					msg := ""
					if kind > 0 {
						w.inter = func(ctx context.Context, req any, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (any, error) {
							seen++
							switch m, ok := req.(proto.Message); {
							case !ok || !proto.Equal(m, in):
								msg = fmt.Sprintf("the interceptor gets %v", req)
							case info.FullMethod != r.name:
								msg = "the interceptor is told " + info.FullMethod
							case info.Server != any(impl):
								msg = fmt.Sprintf("the interceptor is told the server is %v", info.Server)
							}
							switch kind {
							case 2:
								return nil, status.Error(codes.PermissionDenied, "no")
							case 3:
								return h(ctx, other)
							case 4:
								if _, err := h(ctx, req); err != nil {
									return nil, err
								}
								return fullMessage(r.out, 3).Interface(), nil
							case 5:
								if _, err := h(ctx, req); err != nil {
									return nil, err
								}
								return h(context.WithValue(ctx, ctxKey{}, "again"), req)
							}
							return h(ctx, req)
						}
					}
					res, err := r.call(context.Background(), w, in)
					asked := map[int]int{2: 0, 5: 2}
					n, ok := asked[kind]
					if !ok {
						n = 1
					}
					want, wseen := proto.Message(out), 1
					if kind == 0 {
						wseen = 0
					}
					if kind == 4 {
						want = fullMessage(r.out, 3).Interface()
					}
					code := codes.OK
					switch {
					case cut:
						n, want, wseen, code = 0, nil, 0, codes.Internal
					case kind == 2:
						want, code = nil, codes.PermissionDenied
					}
					sent := proto.Message(in)
					if kind == 3 {
						sent = other
					}
					b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(sent)
					switch {
					case msg != "":
						return msg
					case seen != wseen || len(impl.asked) != n:
						return fmt.Sprintf("the interceptor ran %d times and the service %d times, want %d and %d", seen, len(impl.asked), wseen, n)
					case status.Code(err) != code:
						return fmt.Sprintf("comes back as %v, want %v", err, code)
					case (want == nil) != (res == nil) || (want != nil && !proto.Equal(res, want)):
						return fmt.Sprintf("comes back as %v, want %v", res, want)
					case kind == 5 && !cut && impl.ctx.Value(ctxKey{}) != "again":
						return "the context of the interceptor does not reach the service"
					}
					for _, a := range impl.asked {
						if a != fmt.Sprintf("%s %s %x", r.name, r.in.Descriptor().FullName(), b) {
							return fmt.Sprintf("the service was asked %q", a)
						}
					}
					c.Outcome(fmt.Sprintf("interceptor %d cut %v: %v", kind, cut, code))
					return ""
				})
			}
		}
	}

	// histories of calls through one connection
	depth := c.Q(3, 4)
	c.Bound("history depth", fmt.Sprint(depth))
	ops := len(rs) * 4
	var walk func(h []int)
	walk = func(h []int) {
		if len(h) == depth {
			h := append([]int{}, h...)
			c.Case(fmt.Sprintf("history %v", h), func() string {
				impl := &service{}
				w := newWiring(impl)
				for k, op := range h {
					r := rs[op/4]
					in, out := proto.Message(fullMessage(r.in, k).Interface()), proto.Message(fullMessage(r.out, k+1).Interface())
					var f error
					switch op % 4 {
					case 1:
						f = status.Error(codes.InvalidArgument, "no")
					case 2:
						in, out = r.in.New().Interface(), r.out.New().Interface()
					case 3:
						w = newWiring(impl) // a new connection to the same service
					}
					if msg := call(w, impl, r, in, out, f); msg != "" {
						return fmt.Sprintf("call %d: %s", k, msg)
					}
				}
				if msg := impl.changed(); msg != "" {
					return msg
				}
				c.State(fmt.Sprint(len(impl.asked), impl.asked[len(impl.asked)-1][:40]))
				return ""
			})
			return
		}
		for op := 0; op < ops; op++ {
			walk(append(h, op))
		}
	}
	walk(nil)

	// two calls at the same time, through one connection and one client
	for i := range rs {
		for j := i; j < len(rs); j++ {
			for _, inter := range []bool{false, true} {
				i, j, inter := i, j, inter
				c.Whole("two calls", fmt.Sprintf("%s || %s, interceptor %v", rs[i].name, rs[j].name, inter), c.Q(2, 3), func() *x.World {
					impl := &service{}
					impl.answer = func(_ string, in proto.Message) (proto.Message, error) {
						for k, r := range []remote{rs[i], rs[j]} {
							if proto.Equal(in, fullMessage(r.in, k).Interface()) {
								return fullMessage(r.out, k+1).Interface(), nil
							}
						}
						return nil, status.Error(codes.Internal, "a request nobody made")
					}
					w := newWiring(impl)
					if inter {
						w.inter = func(ctx context.Context, req any, _ *grpc.UnaryServerInfo, h grpc.UnaryHandler) (any, error) {
							return h(ctx, req)
						}
					}
					var res [2]proto.Message
					var errs [2]error
					run := func(k int, r remote) func() {
						stub := r.call
						return func() { res[k], errs[k] = stub(context.Background(), w, fullMessage(r.in, k).Interface()) }
					}
					return &x.World{Threads: []func(){run(0, rs[i]), run(1, rs[j])}, Check: func() string {
						for k, r := range []remote{rs[i], rs[j]} {
							if want := fullMessage(r.out, k+1).Interface(); errs[k] != nil || !proto.Equal(res[k], want) {
								return fmt.Sprintf("call %d gives %v, %v, want %v", k, res[k], errs[k], want)
							}
						}
						if len(impl.asked) != 2 {
							return fmt.Sprintf("the service was asked %q", impl.asked)
						}
						return impl.changed()
					}, Outcome: func() string { return "both answered" }}
				})
			}
		}
	}
}
