package checks

import (
	"fmt"
	"strings"
	"time"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

// The reference model of the authorization server. Every operation is executed on the
// implementation and on the model; what differs is a discrepancy with a tag, and each
// check owns the tags its property is about.

type mcode struct {
	val, iss, client, sub, redirect, scope, aud, verifier string
	born, ttl                                             time.Duration
	burned                                                bool
}

type mpar struct {
	uri, iss, client string
	req              *flowv1.AuthorizationRequest
	born, ttl        time.Duration
	used             bool
}

type mdev struct {
	dc, uc, iss, client string
	scope, aud, sub     string
	born, ttl           time.Duration
	approved            bool
}

type mtok struct {
	val, id, iss, client, sub, scope, aud, jkt string
	typ                                        tokenv1.TokenType
	iat, exp                                   time.Duration
	revoked                                    bool
}

const (
	typAT = tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN
	typRT = tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN
)

type hw struct {
	h    *x.H
	c    *x.Ctx
	a    *as
	own  map[string]bool
	now  time.Duration
	bad  string
	stop bool

	codes []*mcode
	pars  []*mpar
	devs  []*mdev
	toks  []*mtok
	vals  map[string]bool
	reqs  int
}

func newHW(c *x.Ctx, h *x.H, own ...string) *hw {
	w := &hw{h: h, c: c, a: newAS(), own: map[string]bool{}, vals: map[string]bool{}}
	for _, o := range own {
		w.own[o] = true
	}
	return w
}

func (w *hw) owns(tag string) bool {
	if w.own[tag] {
		return true
	}
	if i := strings.IndexByte(tag, '.'); i > 0 {
		return w.own[tag[:i]+".*"]
	}
	return false
}

// disc records a discrepancy; one the check does not own only ends this history.
func (w *hw) disc(tag, f string, args ...any) {
	if w.owns(tag) {
		if w.bad == "" {
			w.bad = tag + ": " + fmt.Sprintf(f, args...)
		}
		return
	}
	w.stop = true
	w.c.Outcome("history abandoned (another property's discrepancy): " + tag)
}

func (w *hw) advance(d time.Duration) {
	w.h.Label("+" + d.String())
	w.now += d
	rt.Advance(d)
}

func (w *hw) done() bool { return w.bad != "" || w.stop }

// state is the abstract state reached, for the coverage count.
func (w *hw) state() string {
	var b strings.Builder
	for _, c := range w.codes {
		fmt.Fprintf(&b, "c%s/%s/%v/%v|", c.client, c.iss, c.burned, w.now-c.born > c.ttl)
	}
	for _, c := range w.pars {
		fmt.Fprintf(&b, "p%s/%s/%v/%v|", c.client, c.iss, c.used, w.now-c.born > c.ttl)
	}
	for _, c := range w.devs {
		fmt.Fprintf(&b, "d%s/%s/%v/%v/%s|", c.client, c.iss, c.approved, w.now-c.born > c.ttl, c.sub)
	}
	for _, c := range w.toks {
		fmt.Fprintf(&b, "t%d/%s/%s/%v/%v/%s|", c.typ, c.client, c.iss, c.revoked, w.now > c.exp, c.scope)
	}
	return b.String()
}

func (w *hw) step() {
	w.c.Step()
	w.c.State(w.state())
}

func (w *hw) clientOK(id, grant string) bool {
	c := w.a.clients.m[id]
	if c == nil {
		return false
	}
	for _, g := range c.GrantTypes {
		if g == grant {
			return true
		}
	}
	return false
}

// --- token responses -------------------------------------------------------

// want describes the token a response must carry.
type want struct {
	iss, client, sub, scope, aud, jkt string
	exp                               time.Duration // absolute, from Base
	rt                                int           // 1 must, -1 must not
	rtCnfSame                         bool
}

func jktOf(c *tokenv1.TokenConfirmation) string {
	if c == nil {
		return "(none)"
	}
	return c.Jkt
}

func unix(d time.Duration) uint64 { return uint64(rt.Base.Add(d).Unix()) }

// checkToken compares one issued token to what the model expects and registers it.
func (w *hw) checkToken(t *tokenv1.Token, typ tokenv1.TokenType, e want) {
	if t == nil {
		return
	}
	exp := e.exp
	if typ == typRT {
		exp = w.now + 7*24*time.Hour
	}
	m := t.Metadata
	if m == nil {
		w.disc("meta.nil", "token without metadata")
		return
	}
	cmp := func(tag, what, got, exp string) {
		if got != exp {
			w.disc(tag, "%s token %s is %q, must be %q", typ, what, got, exp)
		}
	}
	if t.TokenType != typ {
		w.disc("meta.type", "token type is %s, must be %s", t.TokenType, typ)
	}
	if t.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
		w.disc("meta.status", "issued token is %s", t.Status)
	}
	cmp("meta.issuer", "issuer", m.Issuer, e.iss)
	cmp("meta.client", "client", m.ClientId, e.client)
	cmp("meta.subject", "subject", m.Subject, e.sub)
	cmp("meta.scope", "scope", fieldsSet(m.Scope), fieldsSet(e.scope))
	cmp("meta.audience", "audience", m.Audience, e.aud)
	cmp("meta.cnf", "confirmation", jktOf(t.Confirmation), e.jkt)
	if m.IssuedAt != unix(w.now) {
		w.disc("meta.iat", "iat is %d, now is %d", m.IssuedAt, unix(w.now))
	}
	if m.ExpiresAt != unix(exp) {
		w.disc("meta.exp", "%s exp is %d, must be %d (iat %d)", typ, m.ExpiresAt, unix(exp), m.IssuedAt)
	}
	if m.NotBefore > unix(w.now)+1 {
		w.disc("meta.nbf", "token is not usable before %d s", m.NotBefore-unix(w.now))
	}
	if t.TokenId == "" {
		w.disc("meta.id", "token without id")
	}
	if w.vals[t.Value] || w.vals["id:"+t.TokenId] {
		w.disc("meta.unique", "token value or id issued twice")
	}
	w.vals[t.Value] = true
	w.vals["id:"+t.TokenId] = true
	// the stored copy is what introspection, refresh and exchange see later
	st, err := w.a.rawTok.GetByValue(bg, e.iss, t.Value)
	if err != nil {
		w.disc("meta.stored", "the issued token is not in the token storage: %v", err)
	} else if st.Metadata.GetSubject() != m.Subject || st.Metadata.GetClientId() != m.ClientId || st.Metadata.GetScope() != m.Scope ||
		st.Metadata.GetAudience() != m.Audience || st.Metadata.GetExpiresAt() != m.ExpiresAt || st.Metadata.GetIssuer() != m.Issuer || st.TokenType != typ ||
		st.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE || jktOf(st.Confirmation) != jktOf(t.Confirmation) {
		w.disc("meta.stored", "stored token differs from the issued one: %v / %v", st, t)
	}
	w.toks = append(w.toks, &mtok{val: t.Value, id: t.TokenId, iss: e.iss, client: e.client, sub: e.sub, scope: e.scope, aud: e.aud, jkt: e.jkt, typ: typ, iat: w.now, exp: exp})
}

// verdict compares a token response with the model's decision.
func (w *hw) verdict(kind string, res *flowv1.TokenResponse, err error, reasons []string, e want) bool {
	defer w.step()
	if s := shape(res, err); s != "" {
		w.disc("shape", "%s: %s (%v)", kind, s, err)
		if err == nil && !granted(res) {
			w.disc("complete."+kind, "no token for a request which must be granted")
		}
		return false
	}
	g := granted(res)
	w.c.Outcome(fmt.Sprintf("%s granted=%v reasons=%v", kind, g, reasons))
	if g && len(reasons) > 0 {
		tag := reasons[0]
		for _, r := range reasons {
			if w.owns(r) {
				tag = r
			}
		}
		w.disc(tag, "%s was granted although it must be refused: %v", kind, reasons)
		return g
	}
	if !g && len(reasons) == 0 {
		w.disc("complete."+kind, "%s was refused although it must be granted: %v", kind, err)
		return g
	}
	if g {
		if res.IdToken != nil {
			w.disc("meta.idtoken", "unexpected id token")
		}
		if e.rt < 0 && res.RefreshToken != nil {
			w.disc("rt.unexpected", "%s issued a refresh token", kind)
		}
		if e.rt > 0 && res.RefreshToken == nil {
			w.disc("rt.missing", "%s issued no refresh token", kind)
		}
		w.checkToken(res.AccessToken, typAT, e)
		w.checkToken(res.RefreshToken, typRT, e)
	}
	return g
}

func hasScope(scope, s string) bool {
	for _, f := range strings.Fields(scope) {
		if strings.EqualFold(f, s) {
			return true
		}
	}
	return false
}

// --- operations ------------------------------------------------------------

// grantedScope is the scope of an accepted authorization request.
func grantedScope(scope string, prompt *string) string {
	if hasScope(scope, "openid") && (prompt == nil || *prompt != "consent") {
		var out []string
		for _, f := range strings.Fields(scope) {
			if !strings.EqualFold(f, "offline_access") {
				out = append(out, f)
			}
		}
		return strings.Join(out, " ")
	}
	return scope
}

// authorize requests a code; the request must be valid.
func (w *hw) authorize(iss, client, sub, scope string, prompt *string) *mcode {
	w.h.Label(fmt.Sprintf("authorize(%s,%s,%s)", short(iss), client, scope))
	r := authReq(client)
	r.Scope, r.Prompt = scope, prompt
	res, err := w.a.authorize(iss, sub, client, r)
	if err != nil || res.GetCode() == "" {
		w.disc("complete.authorize", "a valid authorization request was refused: %v", err)
		w.stop = true
		return nil
	}
	if w.vals[res.Code] {
		w.disc("code.unique", "the same code was issued twice")
	}
	w.vals[res.Code] = true
	m := &mcode{val: res.Code, iss: iss, client: client, sub: sub, redirect: redir1, scope: grantedScope(scope, prompt), aud: "urn:api:" + client,
		verifier: verifierOK, born: w.now, ttl: time.Duration(res.ExpiresIn) * time.Second}
	w.codes = append(w.codes, m)
	w.step()
	return m
}

func short(iss string) string {
	switch iss {
	case issA:
		return "A"
	case issB:
		return "B"
	case issC:
		return "C"
	}
	return iss
}

// plain drops, from every second request, the parameters which must not count.
func (w *hw) plain(r *flowv1.TokenRequest) *flowv1.TokenRequest {
	if w.reqs++; w.reqs%2 == 0 {
		if r.GrantType == gtExchange {
			r.TokenConfirmation = nil
		} else {
			r.Scope, r.Audience = nil, nil
		}
	}
	return r
}

// exchange presents a code.
func (w *hw) exchange(m *mcode, iss, client, redirect, verifier, jkt string) bool {
	w.h.Label(fmt.Sprintf("exchange(%s,%s,%s,%s)", short(iss), client, tail(redirect), tail(verifier)))
	req := w.plain(exchangeReq(iss, client, m.val, redirect, verifier))
	if jkt != "" {
		req.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: jkt}
	} else {
		jkt = "(none)"
	}
	var reasons []string
	if !w.clientOK(client, gtCode) {
		reasons = append(reasons, "client.grant")
	}
	if len(verifier) < 43 || len(verifier) > 128 || redirect == "" {
		reasons = append(reasons, "code.syntax")
	}
	wellFormed := len(reasons) == 0
	if iss != m.iss {
		reasons = append(reasons, "iso.code")
	}
	if m.burned {
		reasons = append(reasons, "code.used")
	}
	if w.now-m.born > m.ttl {
		reasons = append(reasons, "code.expired")
	}
	if client != m.client {
		reasons = append(reasons, "code.client")
	}
	if redirect != m.redirect {
		reasons = append(reasons, "code.redirect")
	}
	if verifier != m.verifier {
		reasons = append(reasons, "code.verifier")
	}
	if !hasScope(m.scope, "openid") {
		reasons = append(reasons, "code.scope")
	}
	if wellFormed && iss == m.iss && w.now-m.born <= m.ttl {
		m.burned = true
	}
	e := want{iss: iss, client: client, sub: m.sub, scope: m.scope, aud: m.aud, jkt: jkt, exp: w.now + time.Hour, rt: -1}
	if hasScope(m.scope, "offline_access") {
		e.rt = 1
	}
	res, err := w.a.tok.Token(bg, req)
	return w.verdict("exchange", res, err, reasons, e)
}

func tail(s string) string {
	if len(s) > 12 {
		return ".." + s[len(s)-10:]
	}
	return s
}

// push registers an authorization request.
func (w *hw) push(iss, client string, r *flowv1.AuthorizationRequest) *mpar {
	w.h.Label(fmt.Sprintf("push(%s,%s)", short(iss), client))
	res, err := w.a.auth.Register(bg, &flowv1.RegistrationRequest{Issuer: iss, Client: cli(client), Request: r})
	if err != nil || res.GetRequestUri() == "" {
		w.disc("complete.push", "a valid pushed authorization request was refused: %v", err)
		w.stop = true
		return nil
	}
	if w.vals[res.RequestUri] {
		w.disc("par.unique", "the same request_uri was issued twice")
	}
	w.vals[res.RequestUri] = true
	m := &mpar{uri: res.RequestUri, iss: iss, client: client, req: r, born: w.now, ttl: time.Duration(res.ExpiresIn) * time.Second}
	w.pars = append(w.pars, m)
	w.step()
	return m
}

// useURI presents a request_uri at the authorization endpoint. client "" means that the
// caller did not identify the client. front are the other front-channel parameters.
func (w *hw) useURI(m *mpar, iss, client, sub string, front *flowv1.AuthorizationRequest, want2 func(res *flowv1.AuthorizeResponse) string) *mcode {
	w.h.Label(fmt.Sprintf("use(%s,%q)", short(iss), client))
	r := &flowv1.AuthorizeRequest{Issuer: iss, Subject: sub, Request: front}
	if r.Request == nil {
		r.Request = &flowv1.AuthorizationRequest{}
	}
	r.Request.RequestUri = sp(m.uri)
	if client != "" {
		r.Client = cli(client)
	}
	var reasons []string
	if iss != m.iss {
		reasons = append(reasons, "iso.par")
	}
	if m.used {
		reasons = append(reasons, "par.used")
	}
	if w.now-m.born > m.ttl {
		reasons = append(reasons, "par.expired")
	}
	if client != "" && client != m.client {
		reasons = append(reasons, "par.client")
	}
	if iss == m.iss && w.now-m.born <= m.ttl {
		m.used = true
	}
	res, err := w.a.auth.Authorize(bg, r)
	defer w.step()
	g := res.GetCode() != ""
	w.c.Outcome(fmt.Sprintf("use granted=%v reasons=%v", g, reasons))
	if g && err != nil || err == nil && !g || err != nil && res.GetError() == nil {
		w.disc("shape", "authorize: err=%v res=%v", err, res)
		return nil
	}
	if g && len(reasons) > 0 {
		tag := reasons[0]
		for _, r := range reasons {
			if w.owns(r) {
				tag = r
			}
		}
		w.disc(tag, "a request_uri was accepted although it must be refused: %v", reasons)
		return nil
	}
	if !g && len(reasons) == 0 {
		w.disc("complete.use", "a valid request_uri was refused: %v", err)
		return nil
	}
	if !g {
		return nil
	}
	if want2 != nil {
		if s := want2(res); s != "" {
			w.disc("par.params", "%s", s)
		}
	}
	mc := &mcode{val: res.Code, iss: iss, client: m.client, sub: sub, redirect: m.req.RedirectUri, scope: grantedScope(m.req.Scope, m.req.Prompt), aud: m.req.Audience,
		verifier: verifierOK, born: w.now, ttl: time.Duration(res.ExpiresIn) * time.Second}
	w.codes = append(w.codes, mc)
	return mc
}

// device starts a device authorization.
func (w *hw) device(iss, client string, scope, aud *string) *mdev {
	w.h.Label(fmt.Sprintf("device(%s,%s)", short(iss), client))
	res, err := w.a.dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: client, Scope: scope, Audience: aud})
	if err != nil || res.GetDeviceCode() == "" || res.GetUserCode() == "" {
		w.disc("complete.device", "a valid device authorization request was refused: %v", err)
		w.stop = true
		return nil
	}
	if w.vals[res.DeviceCode] || w.vals[res.UserCode] || res.DeviceCode == res.UserCode {
		w.disc("dev.unique", "device or user code issued twice")
	}
	w.vals[res.DeviceCode], w.vals[res.UserCode] = true, true
	m := &mdev{dc: res.DeviceCode, uc: res.UserCode, iss: iss, client: client, born: w.now, ttl: time.Duration(res.ExpiresIn) * time.Second}
	if scope != nil {
		m.scope = *scope
	}
	if aud != nil {
		m.aud = *aud
	}
	w.devs = append(w.devs, m)
	w.step()
	return m
}

// approve validates a user code.
func (w *hw) approve(m *mdev, iss, code, sub string) bool {
	w.h.Label(fmt.Sprintf("approve(%s,%s)", short(iss), sub))
	var reasons []string
	if code != m.uc {
		reasons = append(reasons, "user.unknown")
	}
	if iss != m.iss {
		reasons = append(reasons, "iso.user")
	}
	if w.now-m.born > m.ttl {
		reasons = append(reasons, "user.expired")
	}
	if m.approved {
		reasons = append(reasons, "user.used")
	}
	if sub == "" {
		reasons = append(reasons, "user.subject")
	}
	res, err := w.a.dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: code, Subject: sub})
	defer w.step()
	ok := err == nil
	w.c.Outcome(fmt.Sprintf("approve ok=%v reasons=%v", ok, reasons))
	if ok != (res.GetError() == nil) {
		w.disc("shape", "validate: err=%v res=%v", err, res)
	}
	if ok && len(reasons) > 0 {
		tag := reasons[0]
		for _, r := range reasons {
			if w.owns(r) {
				tag = r
			}
		}
		w.disc(tag, "a user code was approved although it must be refused: %v", reasons)
		return ok
	}
	if !ok && len(reasons) == 0 {
		w.disc("complete.approve", "a valid user code was refused: %v", err)
		return ok
	}
	if ok {
		m.approved, m.sub = true, sub
	}
	return ok
}

// poll asks the token endpoint for the tokens of a device code.
func (w *hw) poll(m *mdev, iss, client, dc, jkt string) bool {
	w.h.Label(fmt.Sprintf("poll(%s,%s)", short(iss), client))
	var reasons []string
	if !w.clientOK(client, gtDevice) {
		reasons = append(reasons, "client.grant")
	}
	if dc != m.dc {
		reasons = append(reasons, "dev.unknown")
	}
	if iss != m.iss {
		reasons = append(reasons, "iso.device")
	}
	if client != m.client {
		reasons = append(reasons, "dev.client")
	}
	if w.now-m.born > m.ttl {
		reasons = append(reasons, "dev.expired")
	}
	if !m.approved {
		reasons = append(reasons, "dev.pending")
	}
	req := w.plain(pollReq(iss, client, dc))
	if jkt != "" {
		req.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: jkt}
	} else {
		jkt = "(none)"
	}
	e := want{iss: iss, client: client, sub: m.sub, scope: m.scope, aud: m.aud, jkt: jkt, exp: w.now + time.Hour, rt: -1}
	if hasScope(m.scope, "offline_access") {
		e.rt = 1
	}
	res, err := w.a.tok.Token(bg, req)
	g := w.verdict("poll", res, err, reasons, e)
	if len(reasons) == 1 && reasons[0] == "dev.pending" && res.GetError().GetErr() != "authorization_pending" {
		w.disc("dev.answer", "polling a pending session answers %q, not authorization_pending", res.GetError().GetErr())
	}
	return g
}

// refresh presents a token at the refresh grant.
func (w *hw) refresh(t *mtok, iss, client, val string, scope *string, jkt string) bool {
	w.h.Label(fmt.Sprintf("refresh(%s,%s)", short(iss), client))
	var reasons []string
	if !w.clientOK(client, gtRefresh) {
		reasons = append(reasons, "client.grant")
	}
	if val != t.val {
		reasons = append(reasons, "refresh.unknown")
	}
	if iss != t.iss {
		reasons = append(reasons, "iso.refresh")
	}
	if client != t.client {
		reasons = append(reasons, "refresh.client")
	}
	if t.typ != typRT {
		reasons = append(reasons, "refresh.type")
	}
	if t.revoked {
		reasons = append(reasons, "refresh.revoked")
	}
	if w.now > t.exp {
		reasons = append(reasons, "refresh.expired")
	}
	req := w.plain(refreshReq(iss, client, val))
	if scope != nil {
		req.Scope = scope
	}
	if jkt != "" {
		req.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: jkt}
	}
	e := want{iss: iss, client: client, sub: t.sub, scope: t.scope, aud: t.aud, jkt: t.jkt, exp: w.now + time.Hour, rt: -1}
	if w.now+time.Hour > t.exp {
		e.rt = 1
	}
	res, err := w.a.tok.Token(bg, req)
	g := w.verdict("refresh", res, err, reasons, e)
	if g && len(reasons) == 0 && e.rt > 0 {
		t.revoked = true
	}
	return g
}

// txchange presents a token at the token-exchange grant.
func (w *hw) txchange(t *mtok, iss, client, val string, scope, aud *string) bool {
	w.h.Label(fmt.Sprintf("exchangeToken(%s,%s,%s)", short(iss), client, deref(scope)))
	var reasons []string
	if !w.clientOK(client, gtExchange) {
		reasons = append(reasons, "client.grant")
	}
	if val != t.val {
		reasons = append(reasons, "tx.unknown")
	}
	if iss != t.iss {
		reasons = append(reasons, "iso.tx")
	}
	if t.typ != typAT {
		reasons = append(reasons, "tx.type")
	}
	if t.revoked {
		reasons = append(reasons, "tx.revoked")
	}
	if w.now > t.exp {
		reasons = append(reasons, "tx.expired")
	}
	sc := t.scope
	if scope != nil {
		sc = *scope
		have := map[string]bool{}
		for _, f := range strings.Fields(t.scope) {
			have[f] = true
		}
		for _, f := range strings.Fields(sc) {
			if !have[f] {
				reasons = append(reasons, "tx.scope")
				break
			}
		}
	}
	au := ""
	if aud != nil {
		au = *aud
		if au != resURN && au != "urn:example:cooperation-context" {
			reasons = append(reasons, "tx.audience")
		}
	}
	exp := w.now + time.Minute
	if exp > t.exp {
		exp = t.exp
	}
	res, err := w.a.tok.Token(bg, w.plain(txReq(iss, client, val, scope, aud)))
	return w.verdict("tx", res, err, reasons, want{iss: iss, client: client, sub: t.sub, scope: sc, aud: au, jkt: t.jkt, exp: exp, rt: -1})
}

func deref(s *string) string {
	if s == nil {
		return "-"
	}
	return "'" + *s + "'"
}

// ccred is the client_credentials grant.
func (w *hw) ccred(iss, client string, scope, aud *string, jkt string) bool {
	w.h.Label(fmt.Sprintf("cc(%s,%s)", short(iss), client))
	var reasons []string
	c := w.a.clients.m[client]
	if !w.clientOK(client, gtCC) {
		reasons = append(reasons, "cc.grant")
	}
	if c != nil && c.ClientType != tConf && c.ClientType != tCred {
		reasons = append(reasons, "cc.type")
	}
	req := ccReq(iss, client, scope, aud)
	if jkt != "" {
		req.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: jkt}
	} else {
		jkt = "(none)"
	}
	e := want{iss: iss, client: client, jkt: jkt, exp: w.now + time.Hour, rt: -1}
	if scope != nil {
		e.scope = *scope
	}
	if aud != nil {
		e.aud = *aud
	}
	res, err := w.a.tok.Token(bg, req)
	return w.verdict("cc", res, err, reasons, e)
}

// revoke asks for the revocation of a token.
func (w *hw) revoke(t *mtok, iss, client, val string) bool {
	w.h.Label(fmt.Sprintf("revoke(%s,%s)", short(iss), client))
	res, err := w.a.tok.Revoke(bg, &tokenv1.RevokeRequest{Issuer: iss, Client: cli(client), Token: val})
	defer w.step()
	ok := err == nil && res.GetError() == nil
	if err == nil && res == nil {
		w.disc("shape", "revoke: nil response")
	}
	must := w.a.clients.m[client] != nil && iss == t.iss && client == t.client && val == t.val
	w.c.Outcome(fmt.Sprintf("revoke ok=%v must=%v", ok, must))
	if must {
		if !ok && !t.revoked {
			w.disc("complete.revoke", "the owner could not revoke its token: %v", err)
		}
		if ok {
			t.revoked = true
		}
	} else if ok {
		tag := "revoke.owner"
		if iss != t.iss {
			tag = "iso.revoke"
		}
		// Only its effect counts: an accepted revocation must not have touched the token.
		if st, e := w.a.rawTok.GetByValue(bg, t.iss, t.val); e == nil && st.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && !t.revoked {
			w.disc(tag, "the token was revoked by %s at %s", client, short(iss))
		}
	}
	return ok
}

// introspect asks for the state of a token.
func (w *hw) introspect(t *mtok, iss, client, val string) {
	w.h.Label(fmt.Sprintf("introspect(%s,%s)", short(iss), client))
	res, err := w.a.tok.Introspect(bg, &tokenv1.IntrospectRequest{Issuer: iss, Client: cli(client), Token: val})
	defer w.step()
	if w.a.clients.m[client] == nil {
		if err == nil || res.GetToken() != nil {
			w.disc("intro.client", "an unknown client got an introspection result")
		}
		return
	}
	if err != nil || res.GetToken() == nil {
		w.disc("complete.introspect", "introspection failed: %v %v", err, res)
		return
	}
	k := res.Token
	active := k.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
	w.c.Outcome(fmt.Sprintf("introspect %s revoked=%v same-issuer=%v", k.Status, t.revoked, iss == t.iss))
	if val != t.val || iss != t.iss {
		tag := "intro.unknown"
		if val == t.val {
			tag = "iso.introspect"
		}
		if active || k.Metadata != nil {
			w.disc(tag, "introspection of an unknown token answers %v", k)
		}
		return
	}
	if t.revoked {
		if active {
			w.disc("intro.revoked", "a revoked token is reported active")
		}
		return
	}
	if !active {
		w.disc("intro.active", "an active token is reported %s", k.Status)
		return
	}
	m := k.Metadata
	if m.GetSubject() != t.sub || m.GetClientId() != t.client || m.GetIssuer() != t.iss || fieldsSet(m.GetScope()) != fieldsSet(t.scope) || m.GetAudience() != t.aud ||
		m.GetExpiresAt() != unix(t.exp) || m.GetIssuedAt() != unix(t.iat) || k.TokenType != t.typ || jktOf(k.Confirmation) != t.jkt {
		w.disc("intro.meta", "introspection reports %v, the token was issued as %+v", k, *t)
	}
}

// status of a device session, for assertions on pending sessions
const devPending = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING

// menu is the list of operations enabled in a state.
type menu struct {
	f []func()
}

func (m *menu) add(f func()) { m.f = append(m.f, f) }

// play runs depth operations chosen from the menu built in each state.
func (w *hw) play(depth int, build func(m *menu)) string {
	for i := 0; i < depth && !w.done(); i++ {
		m := &menu{}
		build(m)
		if len(m.f) == 0 {
			break
		}
		m.f[w.h.Choose(len(m.f))]()
	}
	return w.bad
}
