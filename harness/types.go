package main

import "encoding/json"

// JSON shapes shared with the TLA+ modules.  Scenarios (written by TLC) carry
// everything but `obs`; the harness adds `obs` to every step.

type KV struct {
	K string `json:"k"`
	V string `json:"v"`
}

type World struct {
	Realm   string     `json:"realm"`
	Issuer  string     `json:"issuer"`
	TE      TEConf     `json:"te"`
	RP      RPConf     `json:"rp"`
	Pol     PolConf    `json:"pol"`
	Clients []*Client  `json:"clients"`
	Users   []UserConf `json:"users"`
	Tok     TokConf    `json:"tok"`
}

type TEConf struct {
	Grants    []string `json:"grants"`
	Secret    string   `json:"secret"`
	Assertion bool     `json:"assertion"`
	EURI      string   `json:"euri"`
}

type PathConf struct {
	Path   string   `json:"path"`
	Scopes []string `json:"scopes"`
}

type RPConf struct {
	From  string     `json:"from"`
	EURI  string     `json:"euri"`
	Realm string     `json:"realm"`
	Paths []PathConf `json:"paths"`
}

type PolConf struct {
	MaxMaxAge   int    `json:"maxMaxAge"`
	MinMaxAge   int    `json:"minMaxAge"`
	EmptyScope  bool   `json:"emptyScope"`
	MaxNonce    int    `json:"maxNonce"`
	MaxVerifier int    `json:"maxVerifier"`
	Omission    int    `json:"omission"`
	CodeTTL     int    `json:"codeTTL"`
	IdTTL       int    `json:"idTTL"`
	CodeMode    string `json:"codeMode"`
	ImplMode    string `json:"implMode"`
	IgnoreMode  bool   `json:"ignoreMode"`
	SecMode     bool   `json:"secMode"`
}

type AKey struct {
	Alg string `json:"alg"`
	Kid string `json:"kid"`
	Key string `json:"key"`
}

type ScopeConf struct {
	Code     []string `json:"code"`
	Implicit []string `json:"implicit"`
	Hybrid   []string `json:"hybrid"`
	Direct   []string `json:"direct"`
}

type UserConf struct {
	Uid  int64  `json:"uid"`
	Name string `json:"name"`
	Pass string `json:"pass"`
	Sub  string `json:"sub"`
}

type TokConf struct {
	ATTL   int64  `json:"attl"`
	RTTL   int64  `json:"rttl"`
	Rotate string `json:"rotate"`
	IdTTL  int64  `json:"idttl"`
	// lifetime after a refresh (-1: the same), who gets refresh tokens, which scope is granted
	RATTL int64  `json:"rattl"`
	RTPol string `json:"rtpol"`
	ScPol string `json:"scpol"`
}

type InfoRec struct {
	Id     int64  `json:"id"`
	Uid    int64  `json:"uid"`
	Cid    string `json:"cid"`
	Sub    string `json:"sub"`
	Scope  string `json:"scope"`
	At     int64  `json:"at"`
	Active bool   `json:"active"`
}

type SessRec struct {
	Code     string `json:"code"`
	Auth     int64  `json:"auth"`
	RURI     string `json:"ruri"`
	Verifier string `json:"verifier"`
	Nonce    string `json:"nonce"`
	TTL      int64  `json:"ttl"`
	AuthTime int64  `json:"authTime"`
	IdTTL    int64  `json:"idTTL"`
	Created  int64  `json:"created"`
	On       bool   `json:"on"`
}

type TokRec struct {
	AT        string `json:"at"`
	RT        string `json:"rt"`
	Auth      int64  `json:"auth"`
	ATTL      int64  `json:"attl"`
	Refreshed int64  `json:"refreshed"`
	RTTL      int64  `json:"rttl"`
	Created   int64  `json:"created"`
	Front     bool   `json:"front"`
}

type JtiRec struct {
	Cid string `json:"cid"`
	Jti string `json:"jti"`
}

type PendRec struct {
	Cid      string `json:"cid"`
	RT       string `json:"rt"`
	Scope    string `json:"scope"`
	RURI     string `json:"ruri"`
	Mode     string `json:"mode"`
	State    string `json:"state"`
	Verifier string `json:"verifier"`
	Nonce    string `json:"nonce"`
	Display  string `json:"display"`
	Prompt   string `json:"prompt"`
	MaxAge   int64  `json:"maxAge"`
	Locale   string `json:"locale"`
	IdHint   string `json:"idHint"`
	LgHint   string `json:"lgHint"`
}

type StoreRec struct {
	Infos []InfoRec `json:"infos"`
	Sess  []SessRec `json:"sess"`
	Toks  []TokRec  `json:"toks"`
	Jtis  []JtiRec  `json:"jtis"`
	Pend  []PendRec `json:"pend"`
}

type Env struct {
	Login     bool     `json:"login"`
	Uid       int64    `json:"uid"`
	At        int64    `json:"at"`
	FromLogin bool     `json:"fromLogin"`
	Subs      []string `json:"subs"`
	Locale    string   `json:"locale"`
}

type Claim struct {
	N string      `json:"n"`
	T string      `json:"t"`
	V interface{} `json:"v"`
}

type JWTDesc struct {
	Form   string  `json:"form"`
	Alg    string  `json:"alg"`
	Kid    string  `json:"kid"`
	Key    string  `json:"key"`
	Smeth  string  `json:"smeth"`
	Claims []Claim `json:"claims"`
}

type AuthHdr struct {
	Kind   string `json:"kind"`
	Id     string `json:"id"`
	Secret string `json:"secret"`
}

type Req struct {
	M      string   `json:"m"`
	Path   string   `json:"path"`
	Auth   AuthHdr  `json:"auth"`
	Q      []KV     `json:"q"`
	B      []KV     `json:"b"`
	Hdrs   []KV     `json:"hdrs"`
	Scoped bool     `json:"scoped"`
	CA     *JWTDesc `json:"ca"`
	JA     *JWTDesc `json:"ja"`
	Hint   *JWTDesc `json:"hint"`
	Pend   int      `json:"pend"`
	Auth_  int64    `json:"auth_"` // revoke: authorization id
	minted string
}

type Fault struct {
	M    string `json:"m"`
	Kind string `json:"kind"`
	N    int    `json:"n"`
}

type Step struct {
	K     string `json:"k"`
	Now   int64  `json:"now"`
	Alt   bool   `json:"alt"` // in the second world of the scenario
	Env   *Env   `json:"env"`
	Rq    *Req   `json:"rq"`
	Fault *Fault `json:"fault"`
	Obs   *Obs   `json:"obs,omitempty"`
	Solo  *Obs   `json:"solo,omitempty"` // the same request, handled alone
}

// WorldRef: scenarios come with their world in line; recorded ones name the
// line of the world file.
type WorldRef struct {
	raw json.RawMessage
	idx int
	w   *World
}

func (r *WorldRef) UnmarshalJSON(b []byte) error {
	r.raw = append(json.RawMessage{}, b...)
	return nil
}
func (r WorldRef) MarshalJSON() ([]byte, error) { return json.Marshal(r.idx) }

type Scenario struct {
	Id    int       `json:"id"`
	Fam   string    `json:"fam"`
	W     WorldRef  `json:"w"`
	W2    WorldRef  `json:"w2"` // the world after (and before) changes; none: []
	St    *StoreRec `json:"st"`
	Steps []*Step   `json:"steps"`
	Conc  string    `json:"conc"`  // "": one after the other; race, iso, free: at the same time
	Sched []int     `json:"sched"` // the order in which processes take their turns
	Keys  []string  `json:"keys"`  // race: the operations at which a process gives way (none: all)
}

// Eff is one store effect (or attempt, Ok=false) of a request.
type Eff struct {
	Op        string `json:"op"`
	Ok        bool   `json:"ok"`
	Auth      int64  `json:"auth"`
	Cid       string `json:"cid"`
	Uid       int64  `json:"uid"`
	Sub       string `json:"sub"`
	Scope     string `json:"scope"`
	Granted   string `json:"granted"`
	Code      string `json:"code"`
	RURI      string `json:"ruri"`
	Verifier  string `json:"verifier"`
	Nonce     string `json:"nonce"`
	TTL       int64  `json:"ttl"`
	AuthTime  int64  `json:"authTime"`
	IdTTL     int64  `json:"idTTL"`
	At        string `json:"at"`
	Rt        string `json:"rt"`
	Attl      int64  `json:"attl"`
	Rttl      int64  `json:"rttl"`
	Front     bool   `json:"front"`
	Old       string `json:"old"`
	Jti       string `json:"jti"`
	Iat       int64  `json:"iat"`
	Exp       int64  `json:"exp"`
	Refreshed int64  `json:"refreshed"`
	Created   int64  `json:"created"`
}

type Chal struct {
	Scheme string `json:"scheme"`
	Realm  string `json:"realm"`
	Err    string `json:"err"`
	EURI   string `json:"euri"`
}

type IdT struct {
	Has    bool   `json:"has"`
	Key    string `json:"key"` // name of the key that verifies it, or "none"
	Alg    string `json:"alg"`
	Kid    string `json:"kid"`
	Iss    string `json:"iss"`
	Aud    string `json:"aud"`
	Sub    string `json:"sub"`
	Nonce  string `json:"nonce"`
	Iat    int64  `json:"iat"`
	Exp    int64  `json:"exp"`
	At     int64  `json:"at"` // auth_time, -1 when absent
	AtHash string `json:"atHash"`
	CHash  string `json:"cHash"`
}

type Screen struct {
	Kind string  `json:"kind"`
	Typ  string  `json:"typ"`
	Cid  string  `json:"cid"` // client object handed to the consent screen
	Req  PendRec `json:"req"`
}

type Resp struct {
	Via    string `json:"via"` // none, query, fragment, form_post, odd
	Target string `json:"target"`
	Params []KV   `json:"params"`
	Safe   bool   `json:"safe"` // page structure is exactly the self-submitting form
	NoCach bool   `json:"nocache"`
}

type Obs struct {
	Panic   bool     `json:"panic"`
	Why     string   `json:"why"`
	Hang    bool     `json:"hang"`
	Hit     bool     `json:"hit"`
	Alien   bool     `json:"alien"` // served through what another request was given
	Ret     bool     `json:"ret"`
	NW      int      `json:"nw"`
	Status  int      `json:"status"`
	CType   string   `json:"ctype"`
	CC      string   `json:"cc"`
	Pragma  string   `json:"pragma"`
	Chal    Chal     `json:"chal"`
	Kind    string   `json:"kind"` // none, empty, json, other
	Err     string   `json:"err"`
	EURI    string   `json:"euri"`
	TT      string   `json:"tt"`
	AT      string   `json:"at"`
	ExpIn   int64    `json:"expin"`
	RT      string   `json:"rt"`
	Scope   string   `json:"scope"`
	IdT     IdT      `json:"idt"`
	Eff     []Eff    `json:"eff"`
	Screens []Screen `json:"screens"`
	Resp    Resp     `json:"resp"`
	HUid    string   `json:"huid"`
	HCid    string   `json:"hcid"`
	HScope  string   `json:"hscope"`
	Leak    string   `json:"leak"` // credential-looking material in a refused response
}
