// Package checks holds one exhaustive harness per property.
package checks

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"errors"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"unicode"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/services/device"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"

	"google.golang.org/protobuf/proto"
)

var bg = context.Background()

type clientT = *clientv1.Client

const (
	issA = "https://as.example.com/t"
	issB = "https://as.example.com/t2" // issA is a prefix of issB
	issC = "https://other.example.org"

	gtCode     = "authorization_code"
	gtCC       = "client_credentials"
	gtDevice   = "urn:ietf:params:oauth:grant-type:device_code"
	gtRefresh  = "refresh_token"
	gtExchange = "urn:ietf:params:oauth:grant-type:token-exchange"
	atType     = "urn:ietf:params:oauth:token-type:access_token"

	redir1 = "https://client.example.com/cb"
	redir2 = "https://client.example.com/cb2"

	state32 = "oESIiuoybVxAJ5fAKmxxM6s2CnVic6zU"
	nonce8  = "XDwbBH4M"

	resURN = "urn:example:backend-api"
)

var (
	verifierOK  = strings.Repeat("a", 21) + "-" + strings.Repeat("B", 21) + "~._9" // 47 chars
	challengeOK = s256(verifierOK)
	verifierBad = strings.Repeat("c", 47)
)

func s256(v string) string {
	h := sha256.Sum256([]byte(v))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

func sp(s string) *string { return &s }

// allGrants is a fully featured client.
func newClient(id string, typ clientv1.ClientType, grants ...string) *clientv1.Client {
	// a name is not an identifier: here it is that of another client
	name := "c1"
	if id == "c1" {
		name = "c2"
	}
	return &clientv1.Client{
		ClientId: id, ClientType: typ, ClientName: name, GrantTypes: grants,
		ResponseTypes: []string{"code"}, ResponseModes: []string{"query", "fragment", "form_post", "query.jwt"},
		RedirectUris: []string{redir1, redir2},
	}
}

const (
	tPub  = clientv1.ClientType_CLIENT_TYPE_PUBLIC
	tConf = clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL
	tCred = clientv1.ClientType_CLIENT_TYPE_CREDENTIALED
)

// clientMap is the client registry of a harness.
type clientMap struct {
	m map[string]*clientv1.Client
}

func (c *clientMap) Get(_ context.Context, id string) (*clientv1.Client, error) {
	x, ok := c.m[id]
	if !ok {
		return nil, storage.ErrNotFound
	}
	return x, nil
}

func (c *clientMap) GetByName(_ context.Context, n string) (*clientv1.Client, error) {
	for _, x := range c.m {
		if x.ClientName == n {
			return x, nil
		}
	}
	return nil, storage.ErrNotFound
}

func defaultClients() map[string]*clientv1.Client {
	return map[string]*clientv1.Client{
		"c1":   newClient("c1", tConf, gtCode, gtCC, gtDevice, gtRefresh, gtExchange),
		"c2":   newClient("c2", tConf, gtCode, gtCC, gtDevice, gtRefresh, gtExchange),
		"pub":  newClient("pub", tPub, gtCode, gtCC, gtDevice, gtRefresh),
		"none": newClient("none", tConf),
	}
}

// Hook is called before (after=false) and after (after=true) each collaborator call;
// an error it returns is what the service gets.
type hook func(op string, after bool) error

type as struct {
	ctx     context.Context // what requests are made with; nil: bg
	clients *clientMap
	codes   storage.AuthorizationCodeSession
	pars    storage.AuthorizationRequest
	devs    storage.DeviceCodeSession
	tokens  storage.Token
	rawTok  storage.Token
	res     storage.ResourceReader

	auth services.Authorization
	tok  services.Token
	dev  services.Device

	hook   hook
	nTok   int
	empty  bool // generators produce empty values
	issued []string
	spy    *tokenSpy
}

func (a *as) call(op string) error {
	if a.hook != nil {
		return a.hook(op, false)
	}
	return nil
}

func (a *as) ret(op string) error {
	if a.hook != nil {
		return a.hook(op, true)
	}
	return nil
}

func newAS() *as {
	a := &as{clients: &clientMap{m: defaultClients()}}
	a.codes = inmemory.AuthorizationCodeSessions()
	a.pars = inmemory.AuthorizationRequests()
	a.devs = inmemory.DeviceCodeSessions()
	a.rawTok = inmemory.Tokens()
	a.res = inmemory.Resources()
	a.spy = &tokenSpy{a: a, in: a.rawTok}
	a.tokens = a.spy
	a.build()
	return a
}

type codeGen struct{ a *as }

func (g *codeGen) Generate(ctx context.Context, iss string) (string, error) {
	if err := g.a.call("code.gen"); err != nil {
		return "", err
	}
	return generator.DefaultAuthorizationCode().Generate(ctx, iss)
}
func (g *codeGen) Validate(ctx context.Context, iss, in string) error {
	return generator.DefaultAuthorizationCode().Validate(ctx, iss, in)
}

type uriGen struct {
	a  *as
	in generator.RequestURI
}

func (g *uriGen) Generate(ctx context.Context, iss string) (string, error) {
	if err := g.a.call("uri.gen"); err != nil {
		return "", err
	}
	return g.in.Generate(ctx, iss)
}
func (g *uriGen) Validate(ctx context.Context, iss, in string) error {
	if err := g.a.call("uri.validate"); err != nil {
		return err
	}
	return g.in.Validate(ctx, iss, in)
}

type devGen struct{ a *as }

func (g *devGen) Generate(ctx context.Context, iss string) (string, error) {
	if err := g.a.call("dev.gen"); err != nil {
		return "", err
	}
	return generator.DefaultDeviceCode().Generate(ctx, iss)
}

func (g *devGen) Validate(ctx context.Context, iss, in string) error {
	return generator.DefaultDeviceCode().Validate(ctx, iss, in)
}

type userGen struct{ a *as }

func (g *userGen) Generate(ctx context.Context, iss string) (string, error) {
	if err := g.a.call("user.gen"); err != nil {
		return "", err
	}
	return generator.DefaultDeviceUserCode().Generate(ctx, iss)
}

type tokGen struct {
	a    *as
	kind string
}

func (g *tokGen) Generate(_ context.Context, t *tokenv1.Token) (string, error) {
	if err := g.a.call(g.kind + ".gen"); err != nil {
		if errors.Is(err, errEmpty) {
			return "", nil
		}
		return "", err
	}
	g.a.nTok++
	return fmt.Sprintf("%s.%d.%s", g.kind, g.a.nTok, t.TokenId), nil
}

var errEmpty = errors.New("generator produced an empty value")

type clientSpy struct {
	a  *as
	in storage.ClientReader
}

func (s *clientSpy) Get(ctx context.Context, id string) (*clientv1.Client, error) {
	if err := s.a.call("clients.Get"); err != nil {
		return nil, err
	}
	return s.in.Get(ctx, id)
}
func (s *clientSpy) GetByName(ctx context.Context, n string) (*clientv1.Client, error) {
	if err := s.a.call("clients.GetByName"); err != nil {
		return nil, err
	}
	return s.in.GetByName(ctx, n)
}

type parSpy struct {
	a  *as
	in storage.AuthorizationRequest
}

func (s *parSpy) Get(ctx context.Context, iss, u string) (*flowv1.AuthorizationRequest, error) {
	if err := s.a.call("pars.Get"); err != nil {
		return nil, err
	}
	return s.in.Get(ctx, iss, u)
}
func (s *parSpy) Register(ctx context.Context, iss, u string, r *flowv1.AuthorizationRequest) (uint64, error) {
	if err := s.a.call("pars.Register"); err != nil {
		return 0, err
	}
	n, err := s.in.Register(ctx, iss, u, r)
	if e := s.a.ret("pars.Register"); e != nil {
		return 0, e
	}
	return n, err
}
func (s *parSpy) Delete(ctx context.Context, iss, u string) error {
	if err := s.a.call("pars.Delete"); err != nil {
		return err
	}
	err := s.in.Delete(ctx, iss, u)
	if e := s.a.ret("pars.Delete"); e != nil {
		return e
	}
	return err
}

type codeSpy struct {
	a  *as
	in storage.AuthorizationCodeSession
}

func (s *codeSpy) Get(ctx context.Context, iss, u string) (*sessionv1.AuthorizationCodeSession, error) {
	if err := s.a.call("codes.Get"); err != nil {
		return nil, err
	}
	return s.in.Get(ctx, iss, u)
}
func (s *codeSpy) Register(ctx context.Context, iss, u string, r *sessionv1.AuthorizationCodeSession) (uint64, error) {
	if err := s.a.call("codes.Register"); err != nil {
		return 0, err
	}
	n, err := s.in.Register(ctx, iss, u, r)
	if e := s.a.ret("codes.Register"); e != nil {
		return 0, e
	}
	return n, err
}
func (s *codeSpy) Delete(ctx context.Context, iss, u string) error {
	if err := s.a.call("codes.Delete"); err != nil {
		return err
	}
	err := s.in.Delete(ctx, iss, u)
	if e := s.a.ret("codes.Delete"); e != nil {
		return e
	}
	return err
}

type devSpy struct {
	a  *as
	in storage.DeviceCodeSession
}

func (s *devSpy) GetByDeviceCode(ctx context.Context, iss, u string) (*sessionv1.DeviceCodeSession, error) {
	if err := s.a.call("devs.GetByDeviceCode"); err != nil {
		return nil, err
	}
	return s.in.GetByDeviceCode(ctx, iss, u)
}
func (s *devSpy) GetByUserCode(ctx context.Context, iss, u string) (*sessionv1.DeviceCodeSession, error) {
	if err := s.a.call("devs.GetByUserCode"); err != nil {
		return nil, err
	}
	return s.in.GetByUserCode(ctx, iss, u)
}
func (s *devSpy) Register(ctx context.Context, iss, u string, r *sessionv1.DeviceCodeSession) (uint64, error) {
	if err := s.a.call("devs.Register"); err != nil {
		return 0, err
	}
	n, err := s.in.Register(ctx, iss, u, r)
	if e := s.a.ret("devs.Register"); e != nil {
		return 0, e
	}
	return n, err
}
func (s *devSpy) Delete(ctx context.Context, iss, u string) error {
	if err := s.a.call("devs.Delete"); err != nil {
		return err
	}
	err := s.in.Delete(ctx, iss, u)
	if e := s.a.ret("devs.Delete"); e != nil {
		return e
	}
	return err
}
func (s *devSpy) Validate(ctx context.Context, iss, u string, r *sessionv1.DeviceCodeSession) error {
	if err := s.a.call("devs.Validate"); err != nil {
		return err
	}
	err := s.in.Validate(ctx, iss, u, r)
	if e := s.a.ret("devs.Validate"); e != nil {
		return e
	}
	return err
}

type tokenSpy struct {
	a       *as
	in      storage.Token
	created []*tokenv1.Token // successfully stored, with their clear value
	revoked []string
}

func (s *tokenSpy) Get(ctx context.Context, iss, id string) (*tokenv1.Token, error) {
	if err := s.a.call("tokens.Get"); err != nil {
		return nil, err
	}
	return s.in.Get(ctx, iss, id)
}
func (s *tokenSpy) GetByValue(ctx context.Context, iss, v string) (*tokenv1.Token, error) {
	if err := s.a.call("tokens.GetByValue"); err != nil {
		return nil, err
	}
	return s.in.GetByValue(ctx, iss, v)
}
func (s *tokenSpy) Create(ctx context.Context, iss string, t *tokenv1.Token) error {
	if err := s.a.call("tokens.Create"); err != nil {
		return err
	}
	err := s.in.Create(ctx, iss, t)
	if err == nil {
		s.created = append(s.created, proto.Clone(t).(*tokenv1.Token))
	}
	if e := s.a.ret("tokens.Create"); e != nil {
		return e
	}
	return err
}
func (s *tokenSpy) Delete(ctx context.Context, iss, id string) error {
	if err := s.a.call("tokens.Delete"); err != nil {
		return err
	}
	err := s.in.Delete(ctx, iss, id)
	if e := s.a.ret("tokens.Delete"); e != nil {
		return e
	}
	return err
}
func (s *tokenSpy) Revoke(ctx context.Context, iss, id string) error {
	if err := s.a.call("tokens.Revoke"); err != nil {
		return err
	}
	err := s.in.Revoke(ctx, iss, id)
	if e := s.a.ret("tokens.Revoke"); e != nil {
		return e
	}
	return err
}

type resSpy struct {
	a  *as
	in storage.ResourceReader
}

func (s *resSpy) GetByURI(ctx context.Context, u string) (*resourcev1.Resource, error) {
	if err := s.a.call("resources.GetByURI"); err != nil {
		return nil, err
	}
	return s.in.GetByURI(ctx, u)
}

// ---------------------------------------------------------------------------
// requests

// cli is the authenticated client of a request: only its identifier counts, what it claims
// to be able to do does not (the registry decides).
func cli(id string) *clientv1.Client {
	return &clientv1.Client{ClientId: id, ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, ClientName: "claimed",
		GrantTypes:    []string{gtCode, gtCC, gtDevice, gtRefresh, gtExchange},
		ResponseTypes: []string{"code", "token", "id_token"}, ResponseModes: []string{"query", "fragment", "form_post", "query.jwt", "fragment.jwt", "form_post.jwt"},
		RedirectUris: []string{redir1, "https://evil.example/cb"}}
}

// authReq is a valid authorization request.
func authReq(client string) *flowv1.AuthorizationRequest {
	return &flowv1.AuthorizationRequest{
		Scope: "openid profile", ResponseType: "code", ClientId: client, RedirectUri: redir1, State: state32,
		Nonce: nonce8, CodeChallenge: challengeOK, CodeChallengeMethod: "S256", Audience: "urn:api:" + client,
	}
}

func (a *as) cx() context.Context {
	if a.ctx != nil {
		return a.ctx
	}
	return bg
}

func (a *as) authorize(iss, sub string, asClient string, r *flowv1.AuthorizationRequest) (*flowv1.AuthorizeResponse, error) {
	return a.auth.Authorize(a.cx(), &flowv1.AuthorizeRequest{Issuer: iss, Subject: sub, Client: cli(asClient), Request: r})
}

// mustCode gets a code of a valid request.
func (a *as) mustCode(iss, sub, client, scope, prompt string) string {
	r := authReq(client)
	r.Scope = scope
	if prompt != "" {
		r.Prompt = sp(prompt)
	}
	res, err := a.authorize(iss, sub, client, r)
	if err != nil || res.GetCode() == "" {
		panic(fmt.Sprintf("a valid authorization request was rejected: %v %v", err, res))
	}
	return res.Code
}

// The scope and audience of a code, refresh or device request, and the key of a token exchange,
// are not the ones of the tokens: they come from the authorization.
func exchangeReq(iss, client, code, redirect, verifier string) *flowv1.TokenRequest {
	return &flowv1.TokenRequest{Issuer: iss, Client: cli(client), GrantType: gtCode, Scope: sp("openid offline_access admin"), Audience: sp("urn:other"),
		Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: code, RedirectUri: redirect, CodeVerifier: verifier}}}
}

func refreshReq(iss, client, rt string) *flowv1.TokenRequest {
	return &flowv1.TokenRequest{Issuer: iss, Client: cli(client), GrantType: gtRefresh, Scope: sp("openid offline_access admin"), Audience: sp("urn:other"),
		Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: rt}}}
}

func ccReq(iss, client string, scope, aud *string) *flowv1.TokenRequest {
	return &flowv1.TokenRequest{Issuer: iss, Client: cli(client), GrantType: gtCC, Scope: scope, Audience: aud,
		Grant: &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}}
}

func pollReq(iss, client, dc string) *flowv1.TokenRequest {
	return &flowv1.TokenRequest{Issuer: iss, Client: cli(client), GrantType: gtDevice, Scope: sp("openid offline_access admin"), Audience: sp("urn:other"),
		Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: dc}}}
}

func txReq(iss, client, st string, scope, aud *string) *flowv1.TokenRequest {
	return &flowv1.TokenRequest{Issuer: iss, Client: cli(client), GrantType: gtExchange, Scope: scope, Audience: aud, TokenConfirmation: &tokenv1.TokenConfirmation{Jkt: "other-key"},
		Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: st, SubjectTokenType: atType}}}
}

// granted reports whether a token response hands out anything.
func granted(r *flowv1.TokenResponse) bool {
	return r != nil && (r.AccessToken != nil || r.RefreshToken != nil || r.IdToken != nil)
}

// shape checks error xor result, for every token response.
func shape(r *flowv1.TokenResponse, err error) string {
	switch {
	case err != nil && granted(r):
		return "error returned together with tokens"
	case err != nil && (r == nil || r.Error == nil):
		return "error without protocol error"
	case err == nil && r == nil:
		return "nil response without error"
	case err == nil && r.Error != nil:
		return "success with a protocol error"
	case err == nil && (r.AccessToken == nil || r.AccessToken.Value == ""):
		return "success without access token"
	case err == nil && r.RefreshToken != nil && r.RefreshToken.Value == "":
		return "refresh token without value"
	}
	return ""
}

func fieldsSet(s string) string {
	f := strings.Fields(s)
	sort.Strings(f)
	return strings.Join(f, " ")
}

// fixedDev is a device session storage which holds exactly one given session.
type fixedDev struct {
	storage.DeviceCodeSession
	s         *sessionv1.DeviceCodeSession
	validated *sessionv1.DeviceCodeSession
}

func (f *fixedDev) GetByDeviceCode(context.Context, string, string) (*sessionv1.DeviceCodeSession, error) {
	return proto.Clone(f.s).(*sessionv1.DeviceCodeSession), nil
}
func (f *fixedDev) GetByUserCode(context.Context, string, string) (*sessionv1.DeviceCodeSession, error) {
	return proto.Clone(f.s).(*sessionv1.DeviceCodeSession), nil
}
func (f *fixedDev) Validate(_ context.Context, _, _ string, s *sessionv1.DeviceCodeSession) error {
	f.validated = s
	return nil
}
func (f *fixedDev) Delete(context.Context, string, string) error { return nil }

// useDevs rebuilds the services on another device session storage.
func (a *as) useDevs(d storage.DeviceCodeSession) {
	a.devs = d
	a.build()
}

// useTokens rebuilds the services on another token storage.
func (a *as) useTokens(t storage.Token) {
	a.rawTok = t
	a.spy.in = t
	a.build()
}

func (a *as) build() {
	cl := &clientSpy{a, a.clients}
	a.auth = authorization.New(cl, &parSpy{a, a.pars}, &codeSpy{a, a.codes}, &codeGen{a}, &uriGen{a, generator.DefaultRequestURI()})
	a.tok = token.New(&tokGen{a, "at"}, &tokGen{a, "rt"}, cl, &parSpy{a, a.pars}, &codeSpy{a, a.codes}, &devSpy{a, a.devs}, a.tokens, &resSpy{a, a.res})
	a.dev = device.New(cl, &devSpy{a, a.devs}, &devGen{a}, &userGen{a})
}

// near gives the spellings which come closest to a name without being it.
func near(s string) []string {
	var out []string
	seen := map[string]bool{s: true}
	for _, v := range []string{strings.ToUpper(s), strings.ToLower(s), swapCase(s), s + " ", " " + s, s + "\t", s + "\n", s + "x", s + "/", s[:max(len(s)-1, 0)], s + "\x00", s + "." + s, s + "," + s, s + " " + s,
		strings.Replace(s, "s", "\u017f", 1), strings.Replace(s, "k", "\u212a", 1), s + "*", "*", "%" + s, s + "%00", url.QueryEscape(s), s + "#", s + "?", s + "=", s + ";"} {
		if v != "" && !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}

func swapCase(s string) string {
	return strings.Map(func(r rune) rune {
		if l := unicode.ToLower(r); l != r {
			return l
		}
		return unicode.ToUpper(r)
	}, s)
}
