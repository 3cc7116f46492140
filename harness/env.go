package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/rsa"
	"errors"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/prompt"
)

// ---------------------------------------------------------------- Proc

// Proc is one request being executed: what it is allowed to see of its
// environment and everything it did to it.
type Proc struct {
	id      int
	sim     *Sim
	env     *Env
	fault   *Fault
	hit     bool
	calls   map[string]int
	eff     []Eff
	screens []Screen
	pend    int
	sched   *Sched
	cp      *cproc
	hint    string // the minted id_token_hint of this request
	alien   bool   // an operation of this request came through what was given to another one
}

// Sim is one scenario: a world, its store, its clock and the processes.
type Sim struct {
	w     *World
	mu    sync.Mutex
	st    StoreRec
	pend  []string // encoded pending requests
	nTok  int
	nCode int
	nInfo int64
	now   int64
	cur   *Proc           // sequential mode
	procs map[int64]*Proc // concurrent mode: goroutine id -> proc
	conc  bool
	wall  bool  // the endpoints run on the system's clock
	pad   string // makes them long
	far   bool  // ids are large numbers, and so are times
	shift int64 // and this is how far it is from the scenario's
	frac  int64 // nanoseconds into the second
	zone  *time.Location
	own   bool  // every request is given an interface of its own
	odd   bool  // tokens and codes contain characters that need escaping
}

// What the store and the application issue is named AT-n, RT-n and CODE-n in
// traces.  On the wire (odd) these have every kind of character they may have.
var oddEnd = map[string]string{"AT-": "+/~._==", "RT-": " \"<&\\'>%41+=", "CODE-": " +&%2B=#?\"<'>\\/;,"}

func (s *Sim) wireName(n string) string {
	for k, e := range oddEnd {
		if strings.HasPrefix(n, k) && len(n) > len(k) && strings.Trim(n[len(k):], "0123456789") == "" {
			return n + s.pad + e
		}
	}
	return n
}

func (s *Sim) wire(n string) string {
	if s.odd {
		return s.wireName(n)
	}
	return n
}

func (s *Sim) unwire(v string) string {
	if s.odd {
		for k, e := range oddEnd {
			if n := strings.TrimSuffix(v, s.pad+e); strings.HasPrefix(v, k) && n != v && s.wireName(n) == v {
				return n
			}
		}
		if s.wireName(v) != v {
			return "cut:" + v
		}
	}
	return v
}

func goid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := bytes.Fields(buf[:n])
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

func (s *Sim) proc() *Proc {
	if !s.conc {
		return s.cur
	}
	id := goid()
	s.mu.Lock()
	defer s.mu.Unlock()
	p := s.procs[id]
	if p == nil {
		// work handed to another goroutine by the code under test: attribute to nobody
		p = &Proc{id: -1, sim: s, calls: map[string]int{}, env: &Env{}}
		s.procs[id] = p
	}
	return p
}

// enter is called at the start of every environment operation: it is the
// scheduling point and the place where faults are decided.
// owner: the request the interface was given to (nil: to all of them)
func (s *Sim) enter(owner *Proc, m string) (*Proc, string) {
	p := s.proc()
	if owner != nil && owner != p {
		p.alien = true
		owner.alien = true
	}
	if p.sched != nil {
		p.sched.yield(p, m)
	}
	p.calls[m]++
	if p.fault != nil && p.fault.M == m && (p.fault.N == 0 || p.fault.N == p.calls[m]) {
		p.hit = true
		return p, p.fault.Kind
	}
	return p, ""
}

func (s *Sim) touch(m string) {
	if !s.conc {
		return
	}
	p := s.proc()
	if p.sched != nil && p.sched.fine {
		p.sched.yield(p, m)
	}
}

func berr(kind string) *bridge.Error {
	switch kind {
	case "unsupported":
		return bridge.NewError(bridge.ErrUnsupported)
	case "server":
		return bridge.NewError(bridge.ErrServerError)
	case "failed":
		return bridge.NewError(bridge.ErrFailed)
	}
	return nil
}

// ---------------------------------------------------------------- Client

type Client struct {
	Id        string    `json:"id"`
	Secret    string    `json:"secret"`
	Owner     int64     `json:"owner"`
	Grants    []string  `json:"grants"`
	Flows     []string  `json:"flows"`
	Scopes    ScopeConf `json:"scopes"`
	RURIs     []string  `json:"ruris"`
	AKeys     []AKey    `json:"akeys"`
	IdAlg     string    `json:"idalg"`
	IdKid     string    `json:"idkid"`
	IdKey     string    `json:"idkey"`
	NoConsent string    `json:"noconsent"`
	None      string    `json:"none"`

	sim *Sim
}

func has(l []string, v string) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func (c *Client) GetId() string           { c.sim.touch("c.id"); return dec(c.Id) }
func (c *Client) GetOwnerUserId() int64   { c.sim.touch("c.owner"); return c.sim.outId(c.Owner) }
func (c *Client) GetIdTokenAlg() string   { c.sim.touch("c.alg"); return c.IdAlg }
func (c *Client) GetIdTokenKeyId() string { c.sim.touch("c.kid"); return c.IdKid }
func (c *Client) GetIdTokenKey() interface{} {
	c.sim.touch("c.key")
	return signKey(c.IdKey)
}
func (c *Client) MatchSecret(s string) bool {
	c.sim.touch("c.secret")
	return s == dec(c.Secret)
}
func (c *Client) CanUseFlow(f flow.FlowType) bool {
	c.sim.touch("c.flow")
	return has(c.Flows, flowName(f))
}
func (c *Client) CanUseGrantType(gt string) bool {
	c.sim.touch("c.grant")
	return has(c.Grants, gt)
}
func (c *Client) CanUseScope(f flow.FlowType, scope string) bool {
	c.sim.touch("c.scope")
	var l []string
	switch flowName(f) {
	case "code":
		l = c.Scopes.Code
	case "implicit":
		l = c.Scopes.Implicit
	case "hybrid":
		l = c.Scopes.Hybrid
	case "direct":
		l = c.Scopes.Direct
	}
	if scope == "" {
		return true
	}
	for _, w := range strings.Split(scope, " ") {
		if !has(l, w) {
			return false
		}
	}
	return true
}
func (c *Client) CanUseRedirectURI(u string) bool {
	c.sim.touch("c.ruri")
	for _, x := range c.RURIs {
		if dec(x) == u {
			return true
		}
	}
	return false
}
func (c *Client) GetAssertionKey(alg, kid string) interface{} {
	c.sim.touch("c.akey")
	for _, k := range c.AKeys {
		if k.Alg == alg && k.Kid == kid {
			return verifyKey(k.Key)
		}
	}
	return nil
}
func (c *Client) GetNoConsentPromptPolicy() prompt.NoConsentPromptPolicy {
	c.sim.touch("c.noconsent")
	if c.NoConsent == "omit" {
		return prompt.NoConsentPromptPolicyOmitConsentIfCan
	}
	return prompt.NoConsentPromptPolicyForceConsent
}
func (c *Client) GetNonePromptPolicy() prompt.NonePromptPolicy {
	c.sim.touch("c.none")
	switch c.None {
	case "session":
		return prompt.NonePromptPolicyAllowWithLoginSession
	case "loginhint":
		return prompt.NonePromptPolicyAllowIfLoginHintMatched
	case "idhint":
		return prompt.NonePromptPolicyAllowIfIdTokenHintMatched
	}
	return prompt.NonePromptPolicyForbidden
}

func flowName(f flow.FlowType) string {
	switch f {
	case flow.AuthorizationCode:
		return "code"
	case flow.Implicit:
		return "implicit"
	case flow.Hybrid:
		return "hybrid"
	case flow.DirectGrant:
		return "direct"
	}
	return "?"
}

// ---------------------------------------------------------------- stored objects

type Info struct {
	r InfoRec
	s *Sim
}

func (i *Info) GetId() int64           { return i.s.outId(i.r.Id) }
func (i *Info) GetClientId() string    { return dec(i.r.Cid) }
func (i *Info) GetUserId() int64       { return i.s.outId(i.r.Uid) }
func (i *Info) GetSubject() string     { return dec(i.r.Sub) }
func (i *Info) GetScope() string       { return dec(i.r.Scope) }
func (i *Info) GetAuthorizedAt() int64 { return i.s.real(i.r.At) }
func (i *Info) IsActive() bool         { return i.r.Active }

type Sess struct {
	r SessRec
	s *Sim
}

func (s *Sess) GetCode() string            { return s.s.wire(dec(s.r.Code)) }
func (s *Sess) GetAuthId() int64           { return s.s.outId(s.r.Auth) }
func (s *Sess) GetAuthTime() int64         { return s.s.real(s.r.AuthTime) }
func (s *Sess) GetIdTokenExpiresIn() int64 { return s.r.IdTTL }
func (s *Sess) GetRedirectURI() string     { return dec(s.r.RURI) }
func (s *Sess) GetCodeVerifier() string    { return dec(s.r.Verifier) }
func (s *Sess) GetExpiresIn() int64        { return s.r.TTL }
func (s *Sess) GetNonce() string           { return dec(s.r.Nonce) }
func (s *Sess) GetCreatedAt() int64        { return s.s.real(s.r.Created) }

type Tok struct {
	r TokRec
	s *Sim
}

func (t *Tok) GetAuthId() int64                { return t.s.outId(t.r.Auth) }
func (t *Tok) GetAccessToken() string          { return t.s.wire(dec(t.r.AT)) }
func (t *Tok) GetAccessTokenExpiresIn() int64  { return t.r.ATTL }
func (t *Tok) GetRefreshedAt() int64           { return t.s.real(t.r.Refreshed) }
func (t *Tok) GetRefreshToken() string         { return t.s.wire(dec(t.r.RT)) }
func (t *Tok) GetRefreshTokenExpiresIn() int64 { return t.r.RTTL }
func (t *Tok) GetCreatedAt() int64             { return t.s.real(t.r.Created) }

// ---------------------------------------------------------------- DataInterface

type DI struct {
	s     *Sim
	owner *Proc
}

func (d *DI) Issuer() string {
	if _, k := d.s.enter(d.owner, "Issuer"); k != "" {
		return ""
	}
	return d.s.w.Issuer
}

func (d *DI) FindClientById(id string) (bridge.Client, *bridge.Error) {
	if _, k := d.s.enter(d.owner, "FindClientById"); k != "" {
		return nil, berr(k)
	}
	for _, c := range d.s.w.Clients {
		if dec(c.Id) == id {
			return c, nil
		}
	}
	return nil, berr("failed")
}

func (d *DI) FindAuthSessionByCode(code string) (bridge.AuthSession, *bridge.Error) {
	if _, k := d.s.enter(d.owner, "FindAuthSessionByCode"); k != "" {
		return nil, berr(k)
	}
	d.s.mu.Lock()
	defer d.s.mu.Unlock()
	for _, r := range d.s.st.Sess {
		if d.s.wire(dec(r.Code)) == code && r.On {
			return &Sess{r, d.s}, nil
		}
	}
	return nil, berr("failed")
}

func (d *DI) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	if _, k := d.s.enter(d.owner, "FindActiveAuthInfoById"); k != "" {
		return nil, berr(k)
	}
	id = d.s.inId(id)
	d.s.mu.Lock()
	defer d.s.mu.Unlock()
	for _, r := range d.s.st.Infos {
		if r.Id == id && r.Active {
			return &Info{r, d.s}, nil
		}
	}
	return nil, berr("failed")
}

func (d *DI) FindAuthInfoByUserIdAndClientId(uid int64, cid string) (bridge.AuthInfo, *bridge.Error) {
	if _, k := d.s.enter(d.owner, "FindAuthInfoByUserIdAndClientId"); k != "" {
		return nil, berr(k)
	}
	uid = d.s.inId(uid)
	d.s.mu.Lock()
	defer d.s.mu.Unlock()
	for _, r := range d.s.st.Infos {
		if r.Uid == uid && dec(r.Cid) == cid {
			return &Info{r, d.s}, nil
		}
	}
	return nil, berr("failed")
}

func (d *DI) FindOAuthTokenByAccessToken(at string) (bridge.OAuthToken, *bridge.Error) {
	if _, k := d.s.enter(d.owner, "FindOAuthTokenByAccessToken"); k != "" {
		return nil, berr(k)
	}
	d.s.mu.Lock()
	defer d.s.mu.Unlock()
	for _, r := range d.s.st.Toks {
		if d.s.wire(dec(r.AT)) == at && at != "" {
			return &Tok{r, d.s}, nil
		}
	}
	return nil, berr("failed")
}

func (d *DI) FindOAuthTokenByRefreshToken(rt string) (bridge.OAuthToken, *bridge.Error) {
	if _, k := d.s.enter(d.owner, "FindOAuthTokenByRefreshToken"); k != "" {
		return nil, berr(k)
	}
	d.s.mu.Lock()
	defer d.s.mu.Unlock()
	for _, r := range d.s.st.Toks {
		if d.s.wire(dec(r.RT)) == rt && rt != "" {
			return &Tok{r, d.s}, nil
		}
	}
	return nil, berr("failed")
}

func (s *Sim) nilInfo(i bridge.AuthInfo) int64 {
	if i == nil {
		return -1
	}
	if x, ok := i.(*Info); ok && x == nil {
		return -1
	}
	return s.inId(i.GetId())
}

func (s *Sim) issuesRt(scope string) bool {
	switch s.w.Tok.RTPol {
	case "always":
		return true
	case "never":
		return false
	}
	return has(strings.Split(scope, " "), "offline_access")
}
func (d *DI) CreateOAuthToken(info bridge.AuthInfo, onTokenEndpoint bool) (bridge.OAuthToken, *bridge.Error) {
	p, k := d.s.enter(d.owner, "CreateOAuthToken")
	e := Eff{Op: "token", Auth: d.s.nilInfo(info), Front: !onTokenEndpoint}
	if k != "" {
		p.eff = append(p.eff, e)
		return nil, berr(k)
	}
	d.s.mu.Lock()
	defer d.s.mu.Unlock()
	scope := ""
	for _, r := range d.s.st.Infos {
		if r.Id == e.Auth {
			scope = r.Scope
		}
	}
	d.s.nTok++
	r := TokRec{AT: fmt.Sprintf("AT-%d", d.s.nTok), Auth: e.Auth, ATTL: d.s.w.Tok.ATTL,
		Refreshed: d.s.now, RTTL: d.s.w.Tok.RTTL, Created: d.s.now, Front: e.Front}
	if onTokenEndpoint && d.s.issuesRt(scope) {
		r.RT = fmt.Sprintf("RT-%d", d.s.nTok)
	}
	d.s.st.Toks = append(d.s.st.Toks, r)
	e.Ok, e.At, e.Rt, e.Attl, e.Rttl, e.Refreshed, e.Created = true, r.AT, r.RT, r.ATTL, r.RTTL, r.Refreshed, r.Created
	p.eff = append(p.eff, e)
	return &Tok{r, d.s}, nil
}

func (d *DI) RefreshAccessToken(info bridge.AuthInfo, old bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	p, k := d.s.enter(d.owner, "RefreshAccessToken")
	e := Eff{Op: "refresh", Auth: d.s.nilInfo(info)}
	if old != nil {
		e.Old = enc(d.s.unwire(old.GetAccessToken()))
	}
	if k != "" {
		p.eff = append(p.eff, e)
		return nil, berr(k)
	}
	d.s.mu.Lock()
	defer d.s.mu.Unlock()
	for i, r := range d.s.st.Toks {
		if r.AT == e.Old {
			d.s.nTok++
			r.AT = fmt.Sprintf("AT-%d", d.s.nTok)
			switch d.s.w.Tok.Rotate {
			case "yes":
				r.RT = fmt.Sprintf("RT-%d", d.s.nTok)
			case "drop":
				r.RT = ""
			}
			if d.s.w.Tok.RATTL >= 0 {
				r.ATTL = d.s.w.Tok.RATTL
			}
			r.Refreshed = d.s.now
			d.s.st.Toks[i] = r
			e.Ok, e.At, e.Rt, e.Attl, e.Rttl, e.Refreshed, e.Created = true, r.AT, r.RT, r.ATTL, r.RTTL, r.Refreshed, r.Created
			p.eff = append(p.eff, e)
			return &Tok{r, d.s}, nil
		}
	}
	p.eff = append(p.eff, e)
	return nil, berr("failed")
}

func (d *DI) FindUserId(name, pass string) (int64, *bridge.Error) {
	if _, k := d.s.enter(d.owner, "FindUserId"); k != "" {
		return -1, berr(k)
	}
	for _, u := range d.s.w.Users {
		if dec(u.Name) == name && dec(u.Pass) == pass {
			return d.s.outId(u.Uid), nil
		}
	}
	return -1, berr("failed")
}

func (d *DI) CreateOrUpdateAuthInfo(uid int64, cid, scope string) (bridge.AuthInfo, *bridge.Error) {
	p, k := d.s.enter(d.owner, "CreateOrUpdateAuthInfo")
	uid = d.s.inId(uid)
	granted := scope
	switch d.s.w.Tok.ScPol {
	case "first":
		granted = strings.Split(scope, " ")[0]
	case "more":
		granted = scope + " extra"
	case "none":
		granted = ""
	}
	e := Eff{Op: "info", Uid: uid, Cid: enc(cid), Scope: enc(scope), Granted: enc(granted)}
	if k != "" {
		p.eff = append(p.eff, e)
		return nil, berr(k)
	}
	d.s.mu.Lock()
	defer d.s.mu.Unlock()
	var r InfoRec
	found := false
	for i := range d.s.st.Infos {
		x := &d.s.st.Infos[i]
		if x.Uid == uid && dec(x.Cid) == cid {
			x.Scope, x.At, x.Active = enc(granted), d.s.now, true
			r, found = *x, true
		}
	}
	if !found {
		d.s.nInfo++
		r = InfoRec{Id: 900 + d.s.nInfo, Uid: uid, Cid: enc(cid), Sub: fmt.Sprintf("sub-%d-%s", uid, enc(cid)), Scope: enc(granted), At: d.s.now, Active: true}
		d.s.st.Infos = append(d.s.st.Infos, r)
	}
	e.Ok, e.Auth, e.Sub = true, r.Id, r.Sub
	p.eff = append(p.eff, e)
	return &Info{r, d.s}, nil
}

func (d *DI) CreateAuthSession(info bridge.AuthInfo, s *authorization.Session) *bridge.Error {
	p, k := d.s.enter(d.owner, "CreateAuthSession")
	e := Eff{Op: "session", Auth: d.s.nilInfo(info)}
	if s != nil {
		e.Code, e.RURI, e.Verifier, e.Nonce, e.TTL, e.AuthTime = enc(d.s.unwire(s.Code)), enc(s.RedirectURI), enc(s.CodeVerifier), enc(s.Nonce), s.ExpiresIn, d.s.nominal(s.AuthTime)
	}
	e.IdTTL = d.s.w.Tok.IdTTL
	if k != "" {
		p.eff = append(p.eff, e)
		return berr(k)
	}
	d.s.mu.Lock()
	defer d.s.mu.Unlock()
	d.s.st.Sess = append(d.s.st.Sess, SessRec{Code: e.Code, Auth: e.Auth, RURI: e.RURI, Verifier: e.Verifier, Nonce: e.Nonce,
		TTL: e.TTL, AuthTime: e.AuthTime, IdTTL: e.IdTTL, Created: d.s.now, On: true})
	e.Ok = true
	e.Created = d.s.now
	p.eff = append(p.eff, e)
	return nil
}

// DisableSession is an atomic test-and-set: it fails on a session that is
// already disabled.
func (d *DI) DisableSession(sess bridge.AuthSession) *bridge.Error {
	p, k := d.s.enter(d.owner, "DisableSession")
	e := Eff{Op: "disable"}
	if sess != nil {
		e.Code, e.Auth = enc(d.s.unwire(sess.GetCode())), d.s.inId(sess.GetAuthId())
	}
	if k != "" {
		p.eff = append(p.eff, e)
		return berr(k)
	}
	d.s.mu.Lock()
	defer d.s.mu.Unlock()
	for i := range d.s.st.Sess {
		if d.s.st.Sess[i].Code == e.Code && d.s.st.Sess[i].On {
			d.s.st.Sess[i].On = false
			e.Ok = true
			p.eff = append(p.eff, e)
			return nil
		}
	}
	p.eff = append(p.eff, e)
	return berr("failed")
}

func (d *DI) FindUserIdBySubject(sub string) (int64, *bridge.Error) {
	if _, k := d.s.enter(d.owner, "FindUserIdBySubject"); k != "" {
		return -1, berr(k)
	}
	for _, u := range d.s.w.Users {
		if dec(u.Sub) == sub {
			return d.s.outId(u.Uid), nil
		}
	}
	return -1, berr("failed")
}

func (d *DI) RecordAssertionClaims(cid, jti string, iat, exp int64) *bridge.Error {
	p, k := d.s.enter(d.owner, "RecordAssertionClaims")
	e := Eff{Op: "record", Cid: enc(cid), Jti: enc(jti), Iat: d.s.nominal(iat), Exp: d.s.nominal(exp)}
	if k != "" {
		p.eff = append(p.eff, e)
		return berr(k)
	}
	d.s.mu.Lock()
	defer d.s.mu.Unlock()
	if jti != "" {
		for _, j := range d.s.st.Jtis {
			if j.Cid == e.Cid && j.Jti == e.Jti {
				p.eff = append(p.eff, e)
				return berr("failed")
			}
		}
		d.s.st.Jtis = append(d.s.st.Jtis, JtiRec{e.Cid, e.Jti})
	}
	e.Ok = true
	p.eff = append(p.eff, e)
	return nil
}

func clip(x int64) int64 {
	if x > 2147480000 {
		return 2147480000
	}
	if x < -2147480000 {
		return -2147480000
	}
	return x
}

// ---------------------------------------------------------------- callbacks

type CB struct {
	s     *Sim
	owner *Proc
}

var errCB = errors.New("callback failed")

func (c *CB) ShowErrorScreen(t int) {
	p, _ := c.s.enter(c.owner, "ShowErrorScreen")
	n := "?"
	switch t {
	case authorization.ErrMissingClientId:
		n = "client_id"
	case authorization.ErrMissingRedirectURI:
		n = "redirect_uri"
	case authorization.ErrInvalidRedirectURI:
		n = "invalid_redirect_uri"
	case authorization.ErrServerError:
		n = "server_error"
	}
	p.screens = append(p.screens, Screen{Kind: "error", Typ: n})
}

func (c *CB) remember(p *Proc, req *authorization.Request) PendRec {
	if req == nil {
		return PendRec{}
	}
	c.s.mu.Lock()
	kept := req.Encode()
	c.s.pend = append(c.s.pend, kept)
	c.s.mu.Unlock()
	// what is shown and what is kept until the user comes back are one request
	shown, later := pendOf(p, req), pendOf(p, authorization.DecodeRequest(kept))
	if shown != later {
		return later
	}
	return shown
}

func (c *CB) ShowLoginScreen(req *authorization.Request) error {
	p, k := c.s.enter(c.owner, "ShowLoginScreen")
	if k != "" {
		return errCB
	}
	p.screens = append(p.screens, Screen{Kind: "login", Req: c.remember(p, req)})
	return nil
}

func (c *CB) ShowConsentScreen(client bridge.Client, req *authorization.Request) error {
	p, k := c.s.enter(c.owner, "ShowConsentScreen")
	if k != "" {
		return errCB
	}
	cid := ""
	if x, ok := client.(*Client); ok && x != nil {
		cid = x.Id
	}
	p.screens = append(p.screens, Screen{Kind: "consent", Cid: cid, Req: c.remember(p, req)})
	return nil
}

func (c *CB) ChooseLocale(l string) (string, error) {
	p, k := c.s.enter(c.owner, "ChooseLocale")
	if k != "" {
		return "", errCB
	}
	if l == "" {
		return p.env.Locale, nil
	}
	return p.env.Locale + ":" + l, nil
}

func (c *CB) ConfirmLoginSession() (bool, error) {
	p, k := c.s.enter(c.owner, "ConfirmLoginSession")
	if k != "" {
		return false, errCB
	}
	return p.env.Login, nil
}

func (c *CB) RequestIsFromLogin() (bool, error) {
	p, k := c.s.enter(c.owner, "RequestIsFromLogin")
	if k != "" {
		return false, errCB
	}
	return p.env.FromLogin, nil
}

func (c *CB) GetAuthTime() (int64, error) {
	p, k := c.s.enter(c.owner, "GetAuthTime")
	if k != "" {
		return 0, errCB
	}
	return c.s.real(p.env.At), nil
}

func (c *CB) GetLoginUserId() (int64, error) {
	p, k := c.s.enter(c.owner, "GetLoginUserId")
	if k != "" {
		return 0, errCB
	}
	if p.env.Uid < 0 {
		p.hit = true // nobody is logged in: the application reports an error
		return 0, errCB
	}
	return c.s.outId(p.env.Uid), nil
}

func (c *CB) CreateAuthorizationCode() (string, error) {
	p, k := c.s.enter(c.owner, "CreateAuthorizationCode")
	if k != "" {
		return "", errCB
	}
	c.s.mu.Lock()
	c.s.nCode++
	code := fmt.Sprintf("CODE-%d", c.s.nCode)
	c.s.mu.Unlock()
	p.eff = append(p.eff, Eff{Op: "code", Ok: true, Code: code})
	return c.s.wire(code), nil
}

func (c *CB) Continue() (*authorization.Request, error) {
	p, k := c.s.enter(c.owner, "Continue")
	if k != "" {
		return nil, errCB
	}
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	if p.pend < 1 || p.pend > len(c.s.pend) {
		p.hit = true
		return nil, errCB
	}
	return authorization.DecodeRequest(c.s.pend[p.pend-1]), nil
}

func (c *CB) LoginUserIsMatchedToSubject(sub string) (bool, error) {
	p, k := c.s.enter(c.owner, "LoginUserIsMatchedToSubject")
	if k != "" {
		return false, errCB
	}
	for _, x := range p.env.Subs {
		if dec(x) == sub {
			return true, nil
		}
	}
	return false, nil
}

// ---------------------------------------------------------------- pending requests

func rtName(f *flow.Flow) string {
	if f == nil {
		return "none"
	}
	n := flowName(f.Type)
	if f.RequireIdToken {
		n += "+id_token"
	}
	if f.RequireAccessToken {
		n += "+token"
	}
	return n
}

func flowOf(n string) *flow.Flow {
	f := &flow.Flow{}
	parts := strings.Split(n, "+")
	switch parts[0] {
	case "code":
		f.Type = flow.AuthorizationCode
	case "implicit":
		f.Type = flow.Implicit
	case "hybrid":
		f.Type = flow.Hybrid
	}
	f.RequireIdToken = has(parts, "id_token")
	f.RequireAccessToken = has(parts, "token")
	return f
}

func pendOf(p *Proc, r *authorization.Request) PendRec {
	hint := enc(r.IdTokenHint)
	if p.hint != "" && r.IdTokenHint == p.hint {
		hint = "$hint"
	}
	return PendRec{Cid: enc(r.ClientId), RT: rtName(r.Flow), Scope: enc(r.Scope), RURI: enc(r.RedirectURI), Mode: enc(r.ResponseMode),
		State: enc(r.State), Verifier: enc(r.CodeVerifier), Nonce: enc(r.Nonce), Display: enc(r.Display), Prompt: enc(r.Prompt),
		MaxAge: clip(r.MaxAge), Locale: enc(r.UILocale), IdHint: hint, LgHint: enc(r.LoginHint)}
}

func reqOf(p *PendRec) *authorization.Request {
	return &authorization.Request{Flow: flowOf(p.RT), ClientId: dec(p.Cid), Scope: dec(p.Scope), RedirectURI: dec(p.RURI),
		ResponseMode: dec(p.Mode), State: dec(p.State), CodeVerifier: dec(p.Verifier), Nonce: dec(p.Nonce), Display: dec(p.Display),
		Prompt: dec(p.Prompt), MaxAge: p.MaxAge, UILocale: dec(p.Locale), IdTokenHint: dec(p.IdHint), LoginHint: dec(p.LgHint)}
}

// ---------------------------------------------------------------- clock, logger

// times of the scenario, on the clock the endpoints go by, and back
// (small numbers stand for themselves)
func (s *Sim) real(t int64) int64 {
	if t < 1000000 {
		return t
	}
	return t + s.shift
}
func (s *Sim) nominal(t int64) int64 {
	if t < 1000000 {
		return clip(t)
	}
	return clip(t - s.shift)
}

// ids of users and authorizations: in some scenarios large numbers
const farIds, farTimes = 3000000019, 3000000000

func (s *Sim) outId(i int64) int64 {
	if s.far && i > 0 {
		return i * farIds
	}
	return i
}
func (s *Sim) inId(i int64) int64 {
	if s.far && i > 0 {
		if i%farIds != 0 {
			return -777
		}
		return i / farIds
	}
	return clip(i)
}

func (s *Sim) clock() time.Time {
	s.touch("clock")
	t := time.Unix(s.real(atomic.LoadInt64(&s.now)), s.frac)
	if s.zone != nil {
		t = t.In(s.zone)
	}
	return t
}

type nullLogger struct{ s *Sim }

func (l *nullLogger) Debug(a ...interface{})            { l.s.touch("log") }
func (l *nullLogger) Info(a ...interface{})             { l.s.touch("log") }
func (l *nullLogger) Warn(a ...interface{})             { l.s.touch("log") }
func (l *nullLogger) Error(a ...interface{})            { l.s.touch("log") }
func (l *nullLogger) Fatal(a ...interface{})            { l.s.touch("log") }
func (l *nullLogger) Debugf(f string, a ...interface{}) { l.s.touch("log") }
func (l *nullLogger) Infof(f string, a ...interface{})  { l.s.touch("log") }
func (l *nullLogger) Warnf(f string, a ...interface{})  { l.s.touch("log") }
func (l *nullLogger) Errorf(f string, a ...interface{}) { l.s.touch("log") }
func (l *nullLogger) Fatalf(f string, a ...interface{}) { l.s.touch("log") }

// ---------------------------------------------------------------- strings

// Scenario strings are printable ASCII; ~XXXX~ stands for the character with
// that hexadecimal code point (and ~007E~ for a tilde).
func dec(s string) string {
	if !strings.Contains(s, "~") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] == '~' && i+5 < len(s) && s[i+5] == '~' {
			if n, err := strconv.ParseInt(s[i+1:i+5], 16, 32); err == nil {
				b.WriteRune(rune(n))
				i += 6
				continue
			}
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

func enc(s string) string {
	ok := true
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e || s[i] == '~' {
			ok = false
			break
		}
	}
	if ok {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		if r < 0x20 || r > 0x7e || r == '~' {
			fmt.Fprintf(&b, "~%04X~", r)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

var _ crypto.Signer = (*rsa.PrivateKey)(nil)
var _ crypto.Signer = (*ecdsa.PrivateKey)(nil)
