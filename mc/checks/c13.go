package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"time"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C13", Run: c13,
		Rule: "every collaborator call of every operation made to fail, before and after its effect, with every kind of error; all sequences of faulty attempts at the same single-use artefact up to the stated length, followed by fault-free attempts"})
}

// attempt is what one request gave.
type attempt struct {
	ok        bool // the request succeeded
	out       bool // the response carries a credential
	perr      bool // protocol error present
	errNil    bool // no Go error
	noPerrReq bool // this endpoint is not required to build a protocol error
	detail    string
}

// scenario is one operation on a prepared server. do may be called repeatedly.
type scenario struct {
	name   string
	single bool // the artefact may succeed once at most
	prep   func(a *as) any
	do     func(a *as, p any) attempt
	after  func(a *as, p any, okBefore int) string
}

func tokAttempt(r *flowv1.TokenResponse, err error) attempt {
	return attempt{ok: err == nil && granted(r), out: granted(r), perr: r.GetError() != nil, errNil: err == nil, detail: fmt.Sprint(err)}
}

func c13scenarios() []scenario {
	const day = 24 * time.Hour
	rtOf := func(a *as) (string, string) {
		code := a.mustCode(issA, "alice", "c1", "openid offline_access", "consent")
		r, err := a.tok.Token(a.cx(), exchangeReq(issA, "c1", code, redir1, verifierOK))
		if err != nil {
			panic(err)
		}
		return r.AccessToken.Value, r.RefreshToken.Value
	}
	return []scenario{
		{name: "authorize", prep: func(a *as) any { return nil }, do: func(a *as, _ any) attempt {
			r, err := a.authorize(issA, "alice", "c1", authReq("c1"))
			return attempt{ok: err == nil && r.GetCode() != "", out: r.GetCode() != "", perr: r.GetError() != nil, errNil: err == nil}
		}},
		{name: "push", prep: func(a *as) any { return nil }, do: func(a *as, _ any) attempt {
			r, err := a.auth.Register(a.cx(), &flowv1.RegistrationRequest{Issuer: issA, Client: cli("c1"), Request: authReq("c1")})
			return attempt{ok: err == nil && r.GetRequestUri() != "", out: r.GetRequestUri() != "", perr: r.GetError() != nil, errNil: err == nil}
		}},
		{name: "use request_uri", single: true, prep: func(a *as) any {
			r, err := a.auth.Register(a.cx(), &flowv1.RegistrationRequest{Issuer: issA, Client: cli("c1"), Request: authReq("c1")})
			if err != nil {
				panic(err)
			}
			return r.RequestUri
		}, do: func(a *as, p any) attempt {
			r, err := a.authorize(issA, "alice", "c1", &flowv1.AuthorizationRequest{RequestUri: sp(p.(string))})
			return attempt{ok: err == nil && r.GetCode() != "", out: r.GetCode() != "", perr: r.GetError() != nil, errNil: err == nil}
		}},
		{name: "redeem code", single: true, prep: func(a *as) any { return a.mustCode(issA, "alice", "c1", "openid", "") }, do: func(a *as, p any) attempt {
			return tokAttempt(a.tok.Token(a.cx(), exchangeReq(issA, "c1", p.(string), redir1, verifierOK)))
		}},
		{name: "redeem code offline", single: true, prep: func(a *as) any { return a.mustCode(issA, "alice", "c1", "openid offline_access", "consent") }, do: func(a *as, p any) attempt {
			return tokAttempt(a.tok.Token(a.cx(), exchangeReq(issA, "c1", p.(string), redir1, verifierOK)))
		}},
		{name: "client credentials", prep: func(a *as) any { return nil }, do: func(a *as, p any) attempt {
			return tokAttempt(a.tok.Token(a.cx(), ccReq(issA, "c1", sp("a"), sp("urn:x"))))
		}},
		{name: "refresh", prep: func(a *as) any { _, r := rtOf(a); return r }, do: func(a *as, p any) attempt {
			return tokAttempt(a.tok.Token(a.cx(), refreshReq(issA, "c1", p.(string))))
		}},
		{name: "refresh with rotation", single: true, prep: func(a *as) any { _, r := rtOf(a); rt.Advance(7*day - 30*time.Minute); return r }, do: func(a *as, p any) attempt {
			return tokAttempt(a.tok.Token(a.cx(), refreshReq(issA, "c1", p.(string))))
		}},
		{name: "token exchange", prep: func(a *as) any { t, _ := rtOf(a); return t }, do: func(a *as, p any) attempt {
			return tokAttempt(a.tok.Token(a.cx(), txReq(issA, "c2", p.(string), sp("openid"), sp(resURN))))
		}},
		{name: "device request", prep: func(a *as) any { return nil }, do: func(a *as, p any) attempt {
			r, err := a.dev.Authorize(a.cx(), &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: "c1"})
			return attempt{ok: err == nil && r.GetDeviceCode() != "", out: r.GetDeviceCode() != "" || r.GetUserCode() != "", perr: r.GetError() != nil, errNil: err == nil}
		}},
		{name: "approve", single: true, prep: func(a *as) any {
			r, err := a.dev.Authorize(a.cx(), &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: "c1"})
			if err != nil {
				panic(err)
			}
			return r
		}, do: func(a *as, p any) attempt {
			r, err := a.dev.Validate(a.cx(), &flowv1.DeviceCodeValidationRequest{Issuer: issA, UserCode: p.(*flowv1.DeviceAuthorizationResponse).UserCode, Subject: "alice"})
			return attempt{ok: err == nil, perr: r.GetError() != nil, errNil: err == nil}
		}, after: func(a *as, p any, okBefore int) string {
			r, _ := a.tok.Token(a.cx(), pollReq(issA, "c1", p.(*flowv1.DeviceAuthorizationResponse).DeviceCode))
			if okBefore > 0 && !granted(r) {
				return "an acknowledged approval was lost"
			}
			return ""
		}},
		{name: "poll", prep: func(a *as) any {
			r, err := a.dev.Authorize(a.cx(), &flowv1.DeviceAuthorizationRequest{Issuer: issA, ClientId: "c1", Scope: sp("openid offline_access")})
			if err != nil {
				panic(err)
			}
			if _, err := a.dev.Validate(a.cx(), &flowv1.DeviceCodeValidationRequest{Issuer: issA, UserCode: r.UserCode, Subject: "alice"}); err != nil {
				panic(err)
			}
			return r.DeviceCode
		}, do: func(a *as, p any) attempt { return tokAttempt(a.tok.Token(a.cx(), pollReq(issA, "c1", p.(string)))) }},
		{name: "introspect", prep: func(a *as) any { t, _ := rtOf(a); return t }, do: func(a *as, p any) attempt {
			r, err := a.tok.Introspect(a.cx(), &tokenv1.IntrospectRequest{Issuer: issA, Client: cli("c1"), Token: p.(string)})
			act := r.GetToken().GetStatus() == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
			return attempt{ok: err == nil && act, out: act, perr: r.GetError() != nil, errNil: err == nil && r.GetToken().GetStatus() != tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN,
				noPerrReq: r.GetToken().GetStatus() == tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN}
		}},
		{name: "revoke", prep: func(a *as) any { _, t := rtOf(a); return t }, do: func(a *as, p any) attempt {
			r, err := a.tok.Revoke(a.cx(), &tokenv1.RevokeRequest{Issuer: issA, Client: cli("c1"), Token: p.(string)})
			return attempt{ok: err == nil, perr: r.GetError() != nil, errNil: err == nil, noPerrReq: true}
		}, after: func(a *as, p any, okBefore int) string {
			r, _ := a.tok.Token(a.cx(), refreshReq(issA, "c1", p.(string)))
			if okBefore > 0 && granted(r) {
				return "the revocation was acknowledged, the token still works"
			}
			return ""
		}},
	}
}

type fault struct {
	n     int // ordinal of the hook call which fails
	kind  int // index into faultErrs
	fired bool
}

var faultErrs = []struct {
	name string
	err  error
}{
	{"storage error", errors.New("backend is down")},
	{"not found", storage.ErrNotFound},
	{"wrapped not found", fmt.Errorf("lookup: %w", storage.ErrNotFound)},
	{"canceled", context.Canceled},
	{"deadline", context.DeadlineExceeded},
	{"wrapped deadline", fmt.Errorf("backend: %w", context.DeadlineExceeded)},
	{"eof", io.EOF},
	{"no such file", os.ErrNotExist},
	{"exists", os.ErrExist},
	{"closed", net.ErrClosed},
	{"temporary", tempErr{}},
	{"not found text", errors.New(storage.ErrNotFound.Error())},
	{"joined", errors.Join(errors.New("a"), storage.ErrNotFound)},
	{"blank", errors.New("")},
	{"empty value", errEmpty},
	// the caller goes away at that moment: its context is done when the collaborator fails
	{"caller gone", context.Canceled},
	{"caller gone, wrapped", fmt.Errorf("backend: %w", context.Canceled)},
	{"caller gone, storage error", errors.New("backend is down")},
	{"caller gone, not found", storage.ErrNotFound},
}

// tempErr looks like a transient network error.
type tempErr struct{}

func (tempErr) Error() string   { return "connection reset by peer" }
func (tempErr) Timeout() bool   { return true }
func (tempErr) Temporary() bool { return true }

func c13(c *x.Ctx) {
	attempts := c.Q(2, 3)
	c.Bound("faulty attempts in a row", fmt.Sprint(attempts))
	for _, sc := range c13scenarios() {
		sc := sc
		// how many hook calls does one attempt make, without fault
		calls := func() []string {
			rt.ResetClock()
			a := newAS()
			p := sc.prep(a)
			var l []string
			a.hook = func(op string, after bool) error {
				if after {
					op += " (effect done)"
				}
				l = append(l, op)
				return nil
			}
			if at := sc.do(a, p); !at.ok {
				panic("scenario " + sc.name + " does not work without faults: " + at.detail)
			}
			return l
		}()
		c.Bound("calls:"+sc.name, fmt.Sprint(len(calls)))
		c.Histories(sc.name, func(h *x.H) string {
			a := newAS()
			p := sc.prep(a)
			oks := 0
			for i := 0; i < attempts; i++ {
				n := h.Choose(len(calls) + 1)
				kind := 0
				if n < len(calls) {
					kind = h.Choose(len(faultErrs))
				}
				k := -1
				fired := ""
				ctx, cancel := context.WithCancel(bg)
				a.ctx = ctx
				a.hook = func(op string, after bool) error {
					k++
					if k != n {
						return nil
					}
					if faultErrs[kind].err == errEmpty && op != "at.gen" && op != "rt.gen" {
						return nil
					}
					fired = op
					if strings.HasPrefix(faultErrs[kind].name, "caller gone") {
						cancel()
					}
					return faultErrs[kind].err
				}
				if n < len(calls) {
					h.Label(fmt.Sprintf("call %d fails (%s)", n, faultErrs[kind].name))
				} else {
					h.Label("no fault")
				}
				at := sc.do(a, p)
				cancel()
				a.hook, a.ctx = nil, nil
				c.Step()
				c.Outcome(fmt.Sprintf("%s fault at %q: ok=%v", sc.name, fired, at.ok))
				c.State(fmt.Sprint(sc.name, i, n, kind, oks))
				if fired != "" {
					if at.ok || at.out {
						return fmt.Sprintf("%s failed (%s) and the request still succeeded", fired, faultErrs[kind].name)
					}
					if at.errNil {
						return fmt.Sprintf("%s failed (%s) and no error is returned", fired, faultErrs[kind].name)
					}
				}
				if !at.ok && at.out {
					return "a failed request returns credentials"
				}
				if !at.ok && !at.perr && !at.noPerrReq {
					return fmt.Sprintf("a failed request carries no protocol error (fault at %q)", fired)
				}
				if at.ok {
					oks++
				}
				if sc.single && oks > 1 && sc.name != "revoke" {
					return fmt.Sprintf("a single-use artefact succeeded %d times across faulty attempts", oks)
				}
			}
			// the fault is gone
			for i := 0; i < 2; i++ {
				if at := sc.do(a, p); at.ok {
					oks++
				}
				c.Step()
			}
			if sc.single && oks > 1 {
				return fmt.Sprintf("a single-use artefact succeeded %d times", oks)
			}
			if !sc.single && oks < 2 {
				return "the operation does not recover once the fault is gone"
			}
			if sc.after != nil {
				return sc.after(a, p, oks)
			}
			return ""
		})
	}
}
