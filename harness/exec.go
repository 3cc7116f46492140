package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"math"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/grant"
	oer "github.com/lyokato/goidc/oauth_error"
)

const errDoc = "https://err.example/doc"

// ---------------------------------------------------------------- recorder

type recorder struct {
	s      *Sim
	h      http.Header
	snap   http.Header
	status int
	nw     int
	body   strings.Builder
}

func newRecorder(s *Sim) *recorder { return &recorder{s: s, h: http.Header{}} }
func (w *recorder) Header() http.Header {
	w.s.touch("w.header")
	return w.h
}
func (w *recorder) WriteHeader(c int) {
	w.s.touch("w.status")
	w.nw++
	if w.snap == nil {
		w.snap = w.h.Clone()
		w.status = c
	}
}
func (w *recorder) Write(b []byte) (int, error) {
	w.s.touch("w.write")
	if w.snap == nil {
		w.WriteHeader(200)
	}
	w.body.Write(b)
	return len(b), nil
}

// slowBody yields to the scheduler before every read.
type slowBody struct {
	s *Sim
	r io.Reader
}

func (b *slowBody) Read(p []byte) (int, error) {
	b.s.touch("body")
	return b.r.Read(p)
}
func (b *slowBody) Close() error { return nil }

// ---------------------------------------------------------------- endpoints

type Ends struct {
	te *goidc.TokenEndpoint
	ae *goidc.AuthorizationEndpoint
	rp *goidc.ResourceProtector
	th http.HandlerFunc
	di *DI
}

func accept(s string) goidc.CredentialAcceptanceMethod {
	switch s {
	case "post":
		return goidc.FromHeaderAndPostBody
	case "all":
		return goidc.FromAll
	}
	return goidc.FromHeader
}

func byType(t oer.OAuthErrorType) string { return "https://err.example/" + t.String() }

func newSim(w *World, st *StoreRec) *Sim {
	s := &Sim{w: w, st: StoreRec{}, procs: map[int64]*Proc{}}
	cl := make([]*Client, len(w.Clients))
	for i, c := range w.Clients {
		x := *c
		x.sim = s
		cl[i] = &x
	}
	w2 := *w
	w2.Clients = cl
	s.w = &w2
	if st != nil {
		s.st.Infos = append([]InfoRec{}, st.Infos...)
		s.st.Sess = append([]SessRec{}, st.Sess...)
		s.st.Toks = append([]TokRec{}, st.Toks...)
		s.st.Jtis = append([]JtiRec{}, st.Jtis...)
		for i := range st.Pend {
			s.pend = append(s.pend, reqOf(&st.Pend[i]).Encode())
		}
	}
	return s
}

// nearUid: the header's user id as the scenario has it
func (s *Sim) nearUid(h string) string {
	n, err := strconv.ParseInt(h, 10, 64)
	if !s.far || err != nil || n <= 0 || strconv.FormatInt(n, 10) != h {
		return h
	}
	return strconv.FormatInt(s.inId(n), 10)
}

func (s *Sim) endpoints() *Ends {
	w := s.w
	e := &Ends{di: &DI{s, nil}}
	e.te = goidc.NewTokenEndpoint(w.Realm)
	e.te.SetLogger(&nullLogger{s})
	if !s.wall {
		e.te.SetTimeBuilder(s.clock)
	}
	// what is asked for by default is not configured
	if w.TE.Secret != "header" {
		e.te.AcceptClientSecret(accept(w.TE.Secret))
	}
	if w.TE.Assertion {
		e.te.AcceptClientAssertion(true)
	}
	switch w.TE.EURI {
	case "fixed":
		e.te.SetErrorURI(errDoc)
	case "bytype":
		e.te.SetErrorURIBuilder(byType)
	}
	for _, g := range w.TE.Grants {
		switch g {
		case "authorization_code":
			e.te.Support(grant.AuthorizationCode())
		case "refresh_token":
			e.te.Support(grant.RefreshToken())
		case "password":
			e.te.Support(grant.Password())
		case "client_credentials":
			e.te.Support(grant.ClientCredentials())
		case grant.TypeJWT:
			e.te.Support(grant.JWT())
		}
	}
	e.th = e.te.Handler(e.di)
	p := w.Pol
	maxMaxAge := p.MaxMaxAge
	if maxMaxAge == 2147483000 { // Huge: no limit
		maxMaxAge = math.MaxInt64
	}
	e.ae = goidc.NewAuthorizationEndpoint(e.di, &authorization.Policy{
		MaxMaxAge: maxMaxAge, MinMaxAge: p.MinMaxAge, AllowEmptyScope: p.EmptyScope, MaxNonceLength: p.MaxNonce,
		MaxCodeVerifierLength: p.MaxVerifier, ConsentOmissionPeriod: p.Omission, AuthSessionExpiresIn: p.CodeTTL,
		IdTokenExpiresIn: p.IdTTL, DefaultAuthorizationCodeFlowResponseMode: p.CodeMode, DefaultImplicitFlowResponseMode: p.ImplMode,
		IgnoreInvalidResponseMode: p.IgnoreMode, RequireResponseModeSecurityLevelCheck: p.SecMode})
	e.ae.SetLogger(&nullLogger{s})
	if !s.wall {
		e.ae.SetTimeBuilder(s.clock)
	}
	e.rp = goidc.NewResourceProtector(w.RP.Realm)
	e.rp.SetLogger(&nullLogger{s})
	if !s.wall {
		e.rp.SetTimeBuilder(s.clock)
	}
	if w.RP.From != "header" {
		e.rp.AcceptAccessToken(accept(w.RP.From))
	}
	switch w.RP.EURI {
	case "fixed":
		e.rp.SetErrorURI(errDoc)
	case "bytype":
		e.rp.SetErrorURIBulder(byType)
	}
	return e
}

// ---------------------------------------------------------------- requests

func (rq *Req) value(s *Sim, v string) string {
	switch v {
	case "$ca":
		return mint(rq.CA, s.shift)
	case "$ja":
		return mint(rq.JA, s.shift)
	case "$hint":
		if rq.minted == "" {
			rq.minted = mint(rq.Hint, s.shift)
		}
		return rq.minted
	}
	return s.wire(dec(v))
}

func (rq *Req) form(s *Sim, l []KV) string {
	var parts []string
	for _, kv := range l {
		parts = append(parts, url.QueryEscape(kv.K)+"="+url.QueryEscape(rq.value(s, kv.V)))
	}
	return strings.Join(parts, "&")
}

func (rq *Req) build(s *Sim, defPath string) *http.Request {
	path := rq.Path
	if path == "" {
		path = defPath
	}
	u := "https://op.example" + path
	if len(rq.Q) > 0 {
		u += "?" + rq.form(s, rq.Q)
	}
	m := rq.M
	if m == "" {
		m = "POST"
	}
	var body io.Reader
	if len(rq.B) > 0 {
		body = &slowBody{s, strings.NewReader(rq.form(s, rq.B))}
	}
	r, err := http.NewRequest(m, u, body)
	if err != nil {
		panic("harness: " + err.Error())
	}
	r.RemoteAddr = "192.0.2.1:1234"
	if len(rq.B) > 0 {
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	} else if r.Body == nil {
		r.Body = http.NoBody
	}
	a := rq.Auth
	b64s := func(x string) string { return base64.StdEncoding.EncodeToString([]byte(x)) }
	id, sec := dec(a.Id), s.wire(dec(a.Secret))
	hdr := ""
	switch a.Kind {
	case "basic":
		hdr = "Basic " + b64s(url.QueryEscape(id)+":"+url.QueryEscape(sec))
	case "basiclc":
		hdr = "basic " + b64s(url.QueryEscape(id)+":"+url.QueryEscape(sec))
	case "basicuc":
		hdr = "BASIC " + b64s(url.QueryEscape(id)+":"+url.QueryEscape(sec))
	case "badbasic":
		hdr = "Basic !!!not-base64!!!"
	case "nocolon":
		hdr = "Basic " + b64s(id)
	case "bearer":
		hdr = "Bearer " + sec
	case "bearerlc":
		hdr = "bearer " + sec
	case "bearermc":
		hdr = "bEaReR " + sec
	case "beareruc":
		hdr = "BEARER " + sec
	case "bareword":
		hdr = "Bearer"
	case "token":
		hdr = "Token " + sec
	case "rawtok":
		hdr = sec
	}
	if hdr != "" {
		r.Header.Set("Authorization", hdr)
	}
	for _, kv := range rq.Hdrs {
		r.Header.Add(kv.K, dec(kv.V))
	}
	return r
}

// ---------------------------------------------------------------- one step

// simOf tells the JWT library's clock which scenario a goroutine belongs to.
var simOf sync.Map
var lastNow int64

// hangs counts the requests that did not come back.  The more there are the
// less each is waited for, and after a while the run gives up.
var hangs int64

func patience() time.Duration {
	switch n := atomic.LoadInt64(&hangs); {
	case n < 2:
		return 20 * time.Second
	case n < 10:
		return 5 * time.Second
	}
	return time.Second
}
func gaveUp() bool { return atomic.LoadInt64(&hangs) > 40 }

// call runs f as process p, converting panics and hangs into observations.
func (s *Sim) call(p *Proc, o *Obs, f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		id := goid()
		simOf.Store(id, s)
		defer simOf.Delete(id)
		defer func() {
			if x := recover(); x != nil {
				o.Panic = true
				o.Why = enc(fmt.Sprint(x))
			}
		}()
		f()
	}()
	select {
	case <-done:
	case <-time.After(patience()):
		o.Hang = true
		atomic.AddInt64(&hangs, 1)
	}
}

type running struct {
	p    *Proc
	st   *Step
	w    *recorder
	r    *http.Request
	o    *Obs
	body func()
}

func (s *Sim) prepare(e *Ends, st *Step, id int) *running {
	env := st.Env
	if env == nil {
		env = &Env{Uid: -1}
	}
	ru := &running{st: st, o: &Obs{}, w: newRecorder(s)}
	ru.p = &Proc{id: id, sim: s, env: env, fault: st.Fault, calls: map[string]int{}, pend: st.Rq.Pend}
	switch st.K {
	case "token":
		ru.r = st.Rq.build(s, "/token")
		h := e.th
		if s.own {
			h = e.te.Handler(&DI{s, ru.p})
		}
		ru.body = func() { h(ru.w, ru.r) }
	case "authz":
		ru.r = st.Rq.build(s, "/authorize")
		ru.body = func() { ru.o.Ret = e.ae.HandleRequest(ru.w, ru.r, &CB{s, ru.p}) }
	case "complete":
		ru.r = st.Rq.build(s, "/authorize/consent")
		ru.body = func() { ru.o.Ret = e.ae.CompleteRequest(ru.w, ru.r, &CB{s, ru.p}) }
	case "cancel":
		ru.r = st.Rq.build(s, "/authorize/cancel")
		ru.body = func() { ru.o.Ret = e.ae.CancelRequest(ru.w, ru.r, &CB{s, ru.p}) }
	case "res":
		ru.r = st.Rq.build(s, "/resource")
		di := e.di
		if s.own {
			di = &DI{s, ru.p}
		}
		ru.body = func() {
			if st.Rq.Scoped {
				m := map[string][]string{}
				for _, pc := range s.w.RP.Paths {
					m[pc.Path] = pc.Scopes
				}
				ru.o.Ret = e.rp.ValidateWithScopes(ru.w, ru.r, di, m)
			} else {
				ru.o.Ret = e.rp.Validate(ru.w, ru.r, di)
			}
		}
	default:
		panic("harness: unknown step kind " + st.K)
	}
	ru.p.hint = st.Rq.minted
	return ru
}

func (s *Sim) finish(ru *running) {
	o, p, w, st := ru.o, ru.p, ru.w, ru.st
	o.Eff = p.eff
	if o.Eff == nil {
		o.Eff = []Eff{}
	}
	o.Screens = p.screens
	if o.Screens == nil {
		o.Screens = []Screen{}
	}
	o.Hit = p.hit
	o.Alien = p.alien
	o.NW = w.nw
	o.Status = w.status
	h := w.snap
	if h == nil {
		h = http.Header{}
	}
	o.CType = ctype(h.Get("Content-Type"))
	o.CC = strings.ToLower(strings.Join(h.Values("Cache-Control"), ","))
	o.Pragma = strings.ToLower(h.Get("Pragma"))
	o.Chal = parseChal(h.Values("WWW-Authenticate"))
	o.Resp = Resp{Via: "none", Params: []KV{}}
	o.IdT = readIdT(s.w, "", "", "")
	body := w.body.String()
	switch st.K {
	case "token":
		s.readToken(o, body)
	case "authz", "complete", "cancel":
		s.readAuthz(o, w, h, body, ru)
	case "res":
		o.Kind = "none"
		if w.nw > 0 || body != "" {
			o.Kind = "empty"
		}
		if o.Ret {
			o.HUid, o.HCid, o.HScope = s.nearUid(one(ru.r.Header, "X-Oauth-User-Id")), one(ru.r.Header, "X-Oauth-Client-Id"), one(ru.r.Header, "X-Oauth-Scope")
		}
	}
	if o.IdT.Has {
		o.IdT.Iat, o.IdT.Exp, o.IdT.At = s.nominal(o.IdT.Iat), s.nominal(o.IdT.Exp), s.nominal(o.IdT.At)
	}
	// material issued by this very request that shows up in what was sent
	all := body + "\n"
	for k, vs := range h {
		all += k + ": " + strings.Join(vs, "\n") + "\n"
	}
	for _, e := range p.eff {
		for _, v := range []string{e.At, e.Rt} {
			if mentions(all, v) {
				o.Leak = v
			}
		}
		if e.Op == "code" && mentions(all, e.Code) {
			o.Leak = e.Code
		}
	}
}

// mentions: v, not as the beginning of another number
func mentions(all, v string) bool {
	if v == "" {
		return false
	}
	for {
		i := strings.Index(all, v)
		if i < 0 {
			return false
		}
		all = all[i+len(v):]
		if all == "" || all[0] < '0' || all[0] > '9' {
			return true
		}
	}
}

func one(h http.Header, k string) string {
	v := h.Values(k)
	if len(v) != 1 {
		return fmt.Sprintf("?%d", len(v))
	}
	return enc(v[0])
}

func ctype(s string) string {
	t := strings.ToLower(strings.TrimSpace(strings.Split(s, ";")[0]))
	switch t {
	case "application/json":
		return "json"
	case "text/html":
		return "html"
	case "":
		return "none"
	}
	return enc(t)
}

// parseChal reads a WWW-Authenticate challenge.
func parseChal(vs []string) Chal {
	if len(vs) == 0 {
		return Chal{Scheme: "none"}
	}
	if len(vs) > 1 {
		return Chal{Scheme: "many"}
	}
	v := vs[0]
	i := strings.IndexByte(v, ' ')
	if i < 0 {
		return Chal{Scheme: enc(strings.ToLower(v))}
	}
	c := Chal{Scheme: enc(strings.ToLower(v[:i]))}
	rest := v[i+1:]
	for rest != "" {
		rest = strings.TrimLeft(rest, " ,")
		j := strings.IndexByte(rest, '=')
		if j < 0 {
			if rest != "" {
				c.Err = "?syntax"
			}
			return c
		}
		name := strings.ToLower(strings.TrimSpace(rest[:j]))
		rest = rest[j+1:]
		val := ""
		if strings.HasPrefix(rest, `"`) {
			k := 1
			for k < len(rest) && rest[k] != '"' {
				if rest[k] == '\\' && k+1 < len(rest) {
					k++
				}
				val += string(rest[k])
				k++
			}
			if k >= len(rest) {
				c.Err = "?syntax"
				return c
			}
			rest = rest[k+1:]
		} else {
			k := strings.IndexByte(rest, ',')
			if k < 0 {
				k = len(rest)
			}
			val, rest = rest[:k], rest[k:]
		}
		switch name {
		case "realm":
			c.Realm = enc(val)
		case "error":
			c.Err = enc(val)
		case "error_uri":
			c.EURI = enc(val)
		}
	}
	return c
}

func (s *Sim) readToken(o *Obs, body string) {
	o.ExpIn = -1
	if body == "" {
		o.Kind = "empty"
		return
	}
	var m map[string]interface{}
	d := json.NewDecoder(strings.NewReader(body))
	if err := d.Decode(&m); err != nil || d.More() {
		o.Kind = "other"
		return
	}
	o.Kind = "json"
	str := func(k string) string {
		v, ok := m[k]
		if !ok {
			return ""
		}
		x, ok := v.(string)
		if !ok {
			return "?"
		}
		return enc(s.unwire(x))
	}
	o.Err, o.EURI, o.TT, o.AT, o.RT, o.Scope = str("error"), str("error_uri"), str("token_type"), str("access_token"), str("refresh_token"), str("scope")
	if v, ok := m["expires_in"]; ok {
		o.ExpIn, _ = num(v)
		o.ExpIn = clip(o.ExpIn)
	}
	idt := ""
	if v, ok := m["id_token"]; ok {
		idt, _ = v.(string)
		if idt == "" && v != "" {
			idt = "?"
		}
	}
	o.IdT = readIdT(s.w, idt, s.wire(dec(o.AT)), "")
}

func (s *Sim) readAuthz(o *Obs, w *recorder, h http.Header, body string, ru *running) {
	o.Kind = "none"
	if w.nw == 0 && body == "" {
		return
	}
	o.Kind = "resp"
	cc := o.CC
	o.Resp.NoCach = strings.Contains(cc, "no-store")
	base := ""
	if ru.st.K == "authz" {
		base = ru.r.FormValue("redirect_uri")
	} else if ru.p.pend >= 1 && ru.p.pend <= len(s.pend) {
		base = authorization.DecodeRequest(s.pend[ru.p.pend-1]).RedirectURI
	}
	var pairs [][2]string
	ok := true
	// (a permanent redirect would be cached, 307 would send the login form on to the client)
	if loc := h.Get("Location"); loc != "" && (w.status == 302 || w.status == 303) && len(h.Values("Location")) == 1 {
		o.Resp.Safe = true
		o.Resp.Via, o.Resp.Target, pairs, ok = readLocation(loc, base)
	} else if w.status == 200 && o.CType == "html" {
		o.Resp.Via = "form_post"
		var action string
		action, pairs, o.Resp.Safe, ok = readForm(body)
		o.Resp.Target = enc(action)
	} else {
		ok = false
	}
	if !ok {
		o.Resp.Via = "odd"
	}
	sort.SliceStable(pairs, func(i, j int) bool { return pairs[i][0] < pairs[j][0] })
	at, code, idt := "", "", ""
	for _, p := range pairs {
		v := p[1]
		switch p[0] {
		case "access_token":
			at = v
		case "code":
			code = v
		case "id_token":
			idt = v
		}
		if p[0] == "id_token" {
			v = "(jwt)"
		}
		o.Resp.Params = append(o.Resp.Params, KV{enc(p[0]), enc(s.unwire(v))})
	}
	o.IdT = readIdT(s.w, idt, at, code)
}

func pairsOf(q string) ([][2]string, bool) {
	var out [][2]string
	if q == "" {
		return out, true
	}
	for _, part := range strings.Split(q, "&") {
		if part == "" {
			continue
		}
		k, v := part, ""
		if i := strings.IndexByte(part, '='); i >= 0 {
			k, v = part[:i], part[i+1:]
		}
		dk, e1 := url.QueryUnescape(k)
		dv, e2 := url.QueryUnescape(v)
		if e1 != nil || e2 != nil {
			return out, false
		}
		out = append(out, [2]string{dk, dv})
	}
	return out, true
}

// readLocation splits a redirect into the registered URI it starts from and
// the parameters that were added.
func readLocation(loc, base string) (via, target string, pairs [][2]string, ok bool) {
	for i := 0; i < len(loc); i++ {
		if loc[i] <= ' ' || loc[i] > 0x7e {
			return "odd", enc(loc), nil, false
		}
	}
	rest, frag := loc, ""
	if i := strings.IndexByte(loc, '#'); i >= 0 {
		rest, frag = loc[:i], loc[i+1:]
	}
	cut := func(u string) (string, string) {
		if i := strings.IndexByte(u, '?'); i >= 0 {
			return u[:i], u[i+1:]
		}
		return u, ""
	}
	path, q := cut(rest)
	bpath, bq := cut(base)
	if frag != "" {
		pairs, ok = pairsOf(frag)
		target = enc(rest)
		if path == bpath && q == bq {
			target = enc(base)
		}
		return "fragment", target, pairs, ok
	}
	if path != bpath || !strings.HasPrefix(q, bq) {
		pairs, ok = pairsOf(q)
		return "query", enc(rest), pairs, ok
	}
	tail := q[len(bq):]
	if bq != "" && tail != "" && !strings.HasSuffix(bq, "&") && tail[0] != '&' {
		return "query", enc(rest), nil, false
	}
	// the registered parameters must keep their values
	pairs, ok = pairsOf(tail)
	return "query", enc(base), pairs, ok
}

var okTags = map[string]bool{"html": true, "head": true, "title": true, "body": true, "form": true, "input": true,
	"noscript": true, "button": true, "p": true, "meta": true, "!doctype": true}

// readForm reads the self-submitting form; safe is false when the page has any
// structure other than that form.
func readForm(body string) (action string, pairs [][2]string, safe, ok bool) {
	safe = true
	forms, submits := 0, false
	i := 0
	for i < len(body) {
		if body[i] != '<' {
			i++
			continue
		}
		i++
		closing := false
		if i < len(body) && body[i] == '/' {
			closing = true
			i++
		}
		j := i
		for j < len(body) && !strings.ContainsRune(" \t\r\n>/", rune(body[j])) {
			j++
		}
		tag := strings.ToLower(body[i:j])
		i = j
		attrs := map[string]string{}
		for i < len(body) && body[i] != '>' {
			if strings.ContainsRune(" \t\r\n/", rune(body[i])) {
				i++
				continue
			}
			j = i
			for j < len(body) && !strings.ContainsRune("= \t\r\n>/", rune(body[j])) {
				j++
			}
			if j == i {
				i++
				continue
			}
			name := strings.ToLower(body[i:j])
			i = j
			val := ""
			if i < len(body) && body[i] == '=' {
				i++
				if i < len(body) && (body[i] == '"' || body[i] == '\'') {
					qc := body[i]
					i++
					j = i
					for j < len(body) && body[j] != qc {
						j++
					}
					val = body[i:j]
					i = j + 1
				} else {
					j = i
					for j < len(body) && !strings.ContainsRune(" \t\r\n>", rune(body[j])) {
						j++
					}
					val = body[i:j]
					i = j
				}
			}
			if _, dup := attrs[name]; dup {
				safe = false
			}
			attrs[name] = html.UnescapeString(val)
		}
		i++
		if !okTags[tag] {
			safe = false
		}
		if closing {
			continue
		}
		allowed := map[string]bool{}
		switch tag {
		case "body":
			allowed["onload"] = true
			if strings.Contains(attrs["onload"], "submit()") {
				submits = true
			}
		case "form":
			forms++
			action = attrs["action"]
			allowed["method"], allowed["action"] = true, true
			if strings.ToLower(attrs["method"]) != "post" {
				safe = false
			}
		case "input":
			allowed["type"], allowed["name"], allowed["value"] = true, true, true
			if attrs["type"] == "hidden" {
				pairs = append(pairs, [2]string{attrs["name"], attrs["value"]})
			}
		case "meta", "!doctype", "html":
			for k := range attrs {
				allowed[k] = true
			}
		case "button":
			allowed["type"] = true
		}
		for k := range attrs {
			if !allowed[k] {
				safe = false
			}
		}
	}
	if !submits {
		safe = false
	}
	return action, pairs, safe, forms == 1
}

// Single is one request of a concurrent scenario, to be handled in a process
// in which nothing else ever happens.
type Single struct {
	W    json.RawMessage `json:"w"`
	St   *StoreRec       `json:"st"`
	Step *Step           `json:"step"`
	Odd  bool            `json:"odd"`
}

// cmdAlone reads a Single and writes what was observed.
func cmdAlone(in io.Reader, out io.Writer) {
	var q Single
	if err := json.NewDecoder(in).Decode(&q); err != nil {
		die("alone: %v", err)
	}
	w := &World{}
	if err := json.Unmarshal(q.W, w); err != nil {
		die("alone: %v", err)
	}
	s := newSim(w, q.St)
	s.odd = q.Odd
	e := s.endpoints()
	atomic.StoreInt64(&s.now, q.Step.Now)
	ru := s.prepare(e, q.Step, 0)
	s.cur = ru.p
	s.call(ru.p, ru.o, ru.body)
	s.finish(ru)
	en := json.NewEncoder(out)
	en.SetEscapeHTML(false)
	if err := en.Encode(ru.o); err != nil {
		die("alone: %v", err)
	}
}

var (
	singlesMu sync.Mutex
	singles   = map[string]*single{}
)

type single struct {
	once sync.Once
	obs  *Obs
}

// alone handles one request of a concurrent scenario in a process of its own:
// whatever other requests left behind in this one has no part in it.
func alone(w json.RawMessage, st *StoreRec, step *Step, odd bool) *Obs {
	key, err := json.Marshal(&Single{w, st, step, odd})
	if err != nil {
		die("alone: %v", err)
	}
	singlesMu.Lock()
	r := singles[string(key)]
	if r == nil {
		r = &single{}
		singles[string(key)] = r
	}
	singlesMu.Unlock()
	r.once.Do(func() {
		exe, err := os.Executable()
		if err != nil {
			die("alone: %v", err)
		}
		c := exec.Command(exe, "alone")
		c.Stdin = bytes.NewReader(key)
		c.Stderr = os.Stderr
		out, err := c.Output()
		if err != nil {
			die("alone: %v", err)
		}
		o := &Obs{}
		if err := json.Unmarshal(out, o); err != nil {
			die("alone: %v", err)
		}
		r.obs = o
	})
	return r.obs
}

// runScenario executes a scenario sequentially and fills in the observations.
func runScenario(w *World, sc *Scenario) {
	s := newSim(w, sc.St)
	s.odd = sc.Fam != "hist" && sc.Conc != "race"
	s.own = sc.Id%2 == 0
	if sc.Conc == "" && sc.Id%3 == 0 {
		s.far, s.shift = true, farTimes
	}
	if sc.Conc == "" {
		s.frac = []int64{0, 999999999, 1, 500000000}[sc.Id%4]
		if sc.Id%2 == 1 {
			s.zone = zone
		}
	}
	if sc.Conc == "" && sc.Id%5 == 0 {
		s.pad = strings.Repeat(".long-", 700)
	}
	w1, w2 := s.w, s.w
	if sc.W2.w != nil {
		w2 = newSim(sc.W2.w, nil).w
		for _, c := range w2.Clients {
			c.sim = s
		}
	}
	if sc.Conc == "wall" {
		runWall(s, sc)
		return
	}
	e := s.endpoints()
	if sc.Conc != "" {
		solo := make([]*Obs, len(sc.Steps))
		if sc.Conc != "race" {
			for i, st := range sc.Steps {
				solo[i] = alone(sc.W.raw, sc.St, st, s.odd)
			}
		}
		runConc(s, e, sc)
		for i, st := range sc.Steps {
			st.Solo = solo[i]
		}
		return
	}
	for _, st := range sc.Steps {
		s.w = w1
		if st.Alt {
			s.w = w2
		}
		if st.Now != 0 {
			atomic.StoreInt64(&s.now, st.Now)
			atomic.StoreInt64(&lastNow, st.Now)
		}
		if st.K == "revoke" {
			for i := range s.st.Infos {
				if s.st.Infos[i].Id == st.Rq.Auth_ {
					s.st.Infos[i].Active = false
				}
			}
			st.Obs = &Obs{Eff: []Eff{}, Screens: []Screen{}, Kind: "none", Resp: Resp{Via: "none", Params: []KV{}}, Chal: Chal{Scheme: "none"}, IdT: readIdT(s.w, "", "", "")}
			continue
		}
		ru := s.prepare(e, st, 0)
		s.cur = ru.p
		s.call(ru.p, ru.o, ru.body)
		s.finish(ru)
		st.Obs = ru.o
	}
}

var zone = time.FixedZone("", -34200)

// base is the time at which the endpoints of a wall scenario are made.
const base = 1500000000

// runWall executes a scenario on the system's clock, with endpoints that were
// not told about any other: its times are moved to now, its steps are waited for.
func runWall(s *Sim, sc *Scenario) {
	start := time.Now().Unix() + 1
	until := func(t int64) { time.Sleep(time.Until(time.Unix(t, 50e6))) }
	until(start)
	s.wall, s.shift = true, start-base
	e := s.endpoints()
	for i, st := range sc.Steps {
		until(s.real(st.Now))
		before := time.Now().Unix()
		late := s.nominal(before) - st.Now
		st.Now += late
		atomic.StoreInt64(&s.now, st.Now)
		ru := s.prepare(e, st, 0)
		s.cur = ru.p
		s.call(ru.p, ru.o, ru.body)
		s.finish(ru)
		st.Obs = ru.o
		took := time.Now().Unix() - before
		if late > 1 || took > 1 {
			// not a machine to measure time on: what was seen says nothing
			sc.Steps = sc.Steps[:i]
			return
		}
		if d := ru.o.IdT.Iat - st.Now; ru.o.IdT.Has && d > 0 && d <= took {
			ru.o.IdT.Iat -= d
			ru.o.IdT.Exp -= d
		}
	}
}

func init() {
	jwt.TimeFunc = func() time.Time {
		if s, ok := simOf.Load(goid()); ok {
			if s.(*Sim).wall {
				return time.Now()
			}
			return time.Unix(s.(*Sim).real(atomic.LoadInt64(&s.(*Sim).now)), s.(*Sim).frac)
		}
		return time.Unix(atomic.LoadInt64(&lastNow), 0)
	}
}
