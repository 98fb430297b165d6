package checks

import (
	"context"
	"fmt"
	"strings"
	"time"

	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"

	"verif.local/mc/rt"
	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C09", Run: c09,
		Rule: "full product of subject scope x requested scope x audience x remaining lifetime x confirmation x token state; all operation sequences over exchange chains / revoke / clock / clients"})
}

func c09(c *x.Ctx) {
	own := []string{"tx.*", "iso.tx", "complete.tx", "client.grant", "rt.unexpected", "meta.*"}
	words := []string{"read", "write", "openid", "offline_access"}
	var subj []string
	for m := 0; m < 1<<len(words); m++ {
		var p []string
		for i, wd := range words {
			if m>>i&1 == 1 {
				p = append(p, wd)
			}
		}
		subj = append(subj, strings.Join(p, " "))
	}
	reqs := []*string{nil, sp("READ"), sp("reads"), sp("rea"), sp("read read"), sp("read  write"), sp("read,write"), sp(" read"), sp("*"), sp("admin"), sp("read admin"), sp("admin read"), sp("read write admin"), sp("read\twrite"), sp("read\nadmin"),
		sp("read:x"), sp("read.x"), sp("read/x"), sp("x:read"), sp("x.read"), sp("x/read"), sp("read-x"), sp("read_x"), sp("read*"), sp("read:*"), sp("read:"), sp(":read"), sp("openid:read"), sp("read#x"), sp("read?x"), sp("read=x"), sp("+read"), sp("-read"), sp("read write:x")}
	for _, s := range near("read") {
		reqs = append(reqs, sp(s))
	}
	for i := range subj {
		reqs = append(reqs, sp(subj[i]))
	}
	auds := []*string{nil, sp(resURN), sp("urn:example:cooperation-context"), sp("urn:unknown"), sp("urn:orig"), sp(""), sp(strings.ToUpper(resURN)), sp(resURN + " "), sp("https://backend.example.com/api")}
	for _, s := range subj {
		for _, r := range reqs {
			for _, au := range auds {
				if au != auds[0] && au != auds[1] && au != auds[3] && r != nil && s != subj[3] {
					continue
				}
				for _, left := range []time.Duration{time.Hour, 30 * time.Second, 59 * time.Second, 61 * time.Second, time.Second} {
					s, r, au, left := s, r, au, left
					if left != time.Hour && au == auds[3] {
						continue
					}
					if c.Skip() {
						c.SkipN()
						continue
					}
					c.Case(fmt.Sprintf("subject=%q request=%s aud=%s left=%s", s, deref(r), deref(au), left), func() string {
						w := newHW(c, &x.H{}, own...)
						if !w.ccred(issA, "c1", sp(s), sp("urn:orig"), "jkt-1") {
							return w.bad
						}
						t := w.toks[0]
						w.advance(time.Hour - left)
						w.txchange(t, issA, "c2", t.val, r, au)
						// and a chain: the exchanged token is a subject token itself
						if len(w.toks) > 1 && !w.done() {
							w.txchange(w.toks[1], issA, "c1", w.toks[1].val, sp(s), nil)
						}
						return w.bad
					})
				}
			}
		}
	}
	for st := int32(-1); st < 8; st++ {
		for ty := int32(-1); ty < 8; ty++ {
			for _, exp := range []int64{-3600, -1, 1, 60, 3600} {
				for _, cl := range []string{"c1", "c2", "pub", "none", "ghost"} {
					for _, tt := range []string{atType, "", "urn:ietf:params:oauth:token-type:refresh_token", "urn:ietf:params:oauth:token-type:jwt", strings.ToUpper(atType), atType + " "} {
						st, ty, exp, cl, tt := st, ty, exp, cl, tt
						if c.Skip() {
							c.SkipN()
							continue
						}
						c.Case(fmt.Sprintf("stored status=%d type=%d exp=%+d by=%s subject_token_type=%q", st, ty, exp, cl, tt), func() string {
							a := newAS()
							now := uint64(rt.Now().Unix())
							t := &tokenv1.Token{TokenType: tokenv1.TokenType(ty), Status: tokenv1.TokenStatus(st), TokenId: "id", Value: "the-token",
								Confirmation: &tokenv1.TokenConfirmation{Jkt: "jkt"},
								Metadata:     &tokenv1.TokenMeta{Issuer: issA, Subject: "alice", ClientId: "c1", Scope: "openid x", Audience: "urn:a", ExpiresAt: uint64(int64(now) + exp), IssuedAt: now}}
							if err := a.rawTok.Create(bg, issA, t); err != nil {
								return err.Error()
							}
							req := txReq(issA, cl, "the-token", nil, nil)
							req.GetTokenExchange().SubjectTokenType = tt
							res, err := a.tok.Token(bg, req)
							c.Step()
							ok := tokenv1.TokenStatus(st) == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && tokenv1.TokenType(ty) == typAT && exp > 0 && (cl == "c1" || cl == "c2") && tt == atType
							if m := shape(res, err); m != "" {
								return m
							}
							c.Outcome(fmt.Sprintf("stored granted=%v", granted(res)))
							c.State(fmt.Sprint(st, ty, exp, cl, tt))
							if granted(res) != ok {
								return fmt.Sprintf("granted=%v, must be %v: %v", granted(res), ok, err)
							}
							if ok {
								m := res.AccessToken.Metadata
								if m.Subject != "alice" || m.ClientId != cl || m.ExpiresAt > t.Metadata.ExpiresAt || jktOf(res.AccessToken.Confirmation) != "jkt" || res.RefreshToken != nil {
									return fmt.Sprintf("exchanged token is %v", res.AccessToken)
								}
							}
							return ""
						})
					}
				}
			}
		}
	}
	c09resources(c)
	depth := c.Q(4, 5)
	c.Bound("history depth", fmt.Sprint(depth))
	c.Histories("exchange", func(h *x.H) string {
		w := newHW(c, h, own...)
		if !w.issue(issA, "c1", "alice", "openid offline_access read write", "jkt-1") {
			return w.bad
		}
		return w.play(depth, func(m *menu) {
			for i := range w.toks {
				t := w.toks[i]
				if i > 3 {
					break
				}
				m.add(func() { w.txchange(t, t.iss, "c2", t.val, sp("read"), sp(resURN)) })
				m.add(func() { w.txchange(t, t.iss, "c1", t.val, nil, nil) })
				m.add(func() { w.txchange(t, t.iss, "c2", t.val, sp("read write admin"), nil) })
				m.add(func() { w.revoke(t, t.iss, t.client, t.val) })
				if i == 0 {
					m.add(func() { w.txchange(t, issB, "c2", t.val, nil, nil) })
					m.add(func() { w.txchange(t, t.iss, "pub", t.val, nil, nil) })
				}
				if t.typ == typRT {
					m.add(func() { w.refresh(t, t.iss, t.client, t.val, nil, "") })
				}
			}
			m.add(func() { w.advance(50 * time.Second) })
			m.add(func() { w.advance(59*time.Minute + 30*time.Second) })
		})
	})
	lookalikes(c, []string{"tx"}, own...)
	repeats(c, []string{"token"}, own...)
	eras(c, []string{"token"}, own...)
	wildTexts(c, "tx")
	foreignAudiences(c)
	beside(c, "tx", "tx narrowed")
}

type resourceMap map[string]*resourcev1.Resource

func (m resourceMap) GetByURI(_ context.Context, u string) (*resourcev1.Resource, error) {
	if r, ok := m[u]; ok {
		return r, nil
	}
	return nil, storage.ErrNotFound
}

// c09resources: the audience of an exchanged token is the name of the resource which was
// found, whatever else is known about it and about the others.
func c09resources(c *x.Ctx) {
	urls := [][]string{nil, {"https://r1.example"}, {"https://r1.example", "https://r2.example"}, {"urn:r1", "urn:r2"}, {""}, {"urn:other"}}
	for _, key := range []string{"urn:r1", "https://r1.example", "r1"} {
		for _, urn := range []string{"urn:r1", "URN:r1", "urn:r1 urn:r2", "urn:other", "r1"} {
			for ui, us := range urls {
				for _, desc := range []string{"", "urn:other", "Backend"} {
					for _, asked := range []string{key, "urn:r1", "urn:r2", "urn:other", "r1", "R1", "https://r1.example", "https://r2.example", "https://r1.example/", "urn:sub", "Backend"} {
						for _, sub := range []string{"", "urn:sub", asked} {
							key, urn, us, desc, asked, sub := key, urn, us, desc, asked, sub
							c.Case(fmt.Sprintf("resource %s: urn=%s urls#%d description=%q, audience %s after %q by key %v", key, urn, ui, desc, asked, sub, asked == key), func() string {
								a := newAS()
								a.res = resourceMap{key: {Urn: urn, Urls: us, Description: desc}, "urn:far": {Urn: "urn:far", Urls: []string{asked}}}
								a.build()
								now := uint64(rt.Now().Unix())
								if err := a.rawTok.Create(bg, issA, &tokenv1.Token{TokenType: typAT, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, TokenId: "id", Value: "v",
									Metadata: &tokenv1.TokenMeta{Issuer: issA, Subject: "alice", ClientId: "c1", Scope: "openid x", Audience: sub, ExpiresAt: now + 600, IssuedAt: now}}); err != nil {
									return err.Error()
								}
								c.Step()
								res, err := a.tok.Token(bg, txReq(issA, "c2", "v", nil, &asked))
								if m := shape(res, err); m != "" {
									return m
								}
								if granted(res) != (asked == key) {
									return fmt.Sprintf("granted=%v: %v", granted(res), err)
								}
								if got := res.GetAccessToken().GetMetadata().GetAudience(); granted(res) && got != urn {
									return "the audience is " + got
								}
								return ""
							})
						}
					}
				}
			}
		}
	}
}
