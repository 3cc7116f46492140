package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"sort"
	"strings"

	"github.com/golang-jwt/jwt"
)

var keyCache = map[string]interface{}{}

func init() {
	for n, t := range pemKeys {
		b, _ := pem.Decode([]byte(strings.TrimSpace(t)))
		var k interface{}
		var err error
		switch {
		case strings.HasPrefix(n, "ec"):
			k, err = x509.ParseECPrivateKey(b.Bytes)
		default:
			k, err = x509.ParsePKCS1PrivateKey(b.Bytes)
			if err != nil {
				k, err = x509.ParsePKCS8PrivateKey(b.Bytes)
			}
		}
		if err != nil {
			panic(err)
		}
		keyCache[n] = k
	}
}

// signKey: what a client returns as its ID-token signing key.
func signKey(n string) interface{} {
	switch {
	case n == "nil":
		return nil
	case n == "bad":
		return "not a key"
	case strings.HasPrefix(n, "hs:"):
		return []byte(n[3:])
	}
	return keyCache[n]
}

func verifyKey(n string) interface{} {
	if n == "pubpem:rsa1" { // the public key's bytes as an HMAC secret
		d, _ := x509.MarshalPKIXPublicKey(verifyKey("rsa1"))
		return pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: d})
	}
	k := signKey(n)
	if s, ok := k.(crypto.Signer); ok {
		return s.Public()
	}
	return k
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// mint builds the JWT a descriptor describes; it signs with the key the
// descriptor names whatever the header claims.
// shift: how far the clock the token is read by is from the scenario's
func mint(d *JWTDesc, shift int64) string {
	switch d.Form {
	case "garbage":
		return "this-is-not-a-jwt"
	case "twoparts":
		return "eyJhbGciOiJIUzI1NiJ9.e30"
	case "badjson":
		return b64([]byte("{notjson")) + "." + b64([]byte("{}")) + "." + b64([]byte("x"))
	case "badbody":
		return b64([]byte(`{"alg":"HS256","typ":"JWT"}`)) + "." + b64([]byte("{notjson")) + "." + b64([]byte("x"))
	case "noalg":
		return b64([]byte(`{"typ":"JWT"}`)) + "." + b64([]byte(`{"sub":"c1"}`)) + "." + b64([]byte("x"))
	case "bearer": // jwt library refuses a "bearer " prefix
		e := *d
		e.Form = "ok"
		return "Bearer " + mint(&e, shift)
	}
	hdr := map[string]interface{}{"typ": "JWT", "alg": d.Alg}
	if d.Kid != "" {
		hdr["kid"] = d.Kid
	}
	claims := map[string]interface{}{}
	for _, c := range d.Claims {
		if v, ok := c.V.(float64); ok && shift != 0 && v > 1000000 && c.T != "s" {
			c.V = v + float64(shift)
		}
		switch c.T {
		case "s":
			if s, ok := c.V.(string); ok {
				claims[c.N] = dec(s)
			}
		case "i":
			claims[c.N] = c.V
		case "f": // fractional number v + 0.5
			f, _ := c.V.(float64)
			claims[c.N] = f + 0.5
		case "si":
			claims[c.N] = fmt.Sprintf("%v", c.V)
		case "b":
			claims[c.N] = true
		case "null":
			claims[c.N] = nil
		case "a":
			claims[c.N] = []interface{}{c.V}
		}
	}
	hb, _ := json.Marshal(hdr)
	cb, _ := json.Marshal(claims)
	in := b64(hb) + "." + b64(cb)
	if d.Key == "none" {
		return in + "."
	}
	sm := d.Smeth
	if sm == "" {
		sm = d.Alg
	}
	m := jwt.GetSigningMethod(sm)
	if m == nil {
		return in + "." + b64([]byte("sig"))
	}
	var k interface{} = signKey(d.Key)
	if strings.HasPrefix(d.Key, "pubpem:") {
		k = verifyKey(d.Key)
	}
	sig, err := m.Sign(in, k)
	if err != nil {
		sig = b64([]byte("unsignable"))
	}
	if d.Form == "tampered" { // body changed after signing
		claims["x"] = "y"
		cb, _ = json.Marshal(claims)
		in = b64(hb) + "." + b64(cb)
	}
	if d.Form == "nosig" {
		sig = ""
	}
	if d.Form == "cutsig" && len(sig) > 4 {
		sig = sig[:len(sig)-4]
	}
	return in + "." + sig
}

func leftHash(alg, v string) []byte {
	switch {
	case strings.HasSuffix(alg, "256"):
		h := sha256.Sum256([]byte(v))
		return h[:16]
	case strings.HasSuffix(alg, "384"):
		h := sha512.Sum384([]byte(v))
		return h[:24]
	case strings.HasSuffix(alg, "512"):
		h := sha512.Sum512([]byte(v))
		return h[:32]
	}
	return nil
}

func hashClass(alg, claim string, present bool, v string) string {
	if !present {
		return "none"
	}
	h := leftHash(alg, v)
	if h == nil || v == "" {
		return "bad"
	}
	if claim == base64.RawURLEncoding.EncodeToString(h) {
		return "url"
	}
	if claim == base64.StdEncoding.EncodeToString(h) {
		return "std"
	}
	return "bad"
}

func num(v interface{}) (int64, bool) {
	switch n := v.(type) {
	case float64:
		if n != float64(int64(n)) {
			return -999, true
		}
		return int64(n), true
	case nil:
		return -1, false
	}
	return -999, true
}

// readIdT reads an ID token independently of the code under test.
func readIdT(w *World, tok, at, code string) IdT {
	out := IdT{Key: "none", At: -1, Iat: -1, Exp: -1, AtHash: "none", CHash: "none"}
	if tok == "" {
		return out
	}
	out.Has = true
	parts := strings.Split(tok, ".")
	if len(parts) != 3 {
		return out
	}
	var hdr, cl map[string]interface{}
	for i, p := range []*map[string]interface{}{&hdr, &cl} {
		raw, err := base64.RawURLEncoding.DecodeString(parts[i])
		if err != nil || json.Unmarshal(raw, p) != nil {
			return out
		}
	}
	str := func(m map[string]interface{}, k string) string {
		v, ok := m[k]
		if !ok {
			return ""
		}
		s, ok := v.(string)
		if !ok {
			return "?"
		}
		return enc(s)
	}
	out.Alg, out.Kid = str(hdr, "alg"), str(hdr, "kid")
	names := map[string]bool{}
	for _, c := range w.Clients {
		names[c.IdKey] = true
		for _, k := range c.AKeys {
			names[k.Key] = true
		}
	}
	var sorted []string
	for n := range names {
		sorted = append(sorted, n)
	}
	sort.Strings(sorted)
	if m := jwt.GetSigningMethod(out.Alg); m != nil && out.Alg != "none" {
		for _, n := range sorted {
			k := verifyKey(n)
			if k == nil {
				continue
			}
			if _, isEC := k.(*ecdsa.PublicKey); isEC != strings.HasPrefix(out.Alg, "ES") {
				continue
			}
			if m.Verify(parts[0]+"."+parts[1], parts[2], k) == nil {
				out.Key = n
				break
			}
		}
	}
	out.Iss, out.Aud, out.Sub, out.Nonce = str(cl, "iss"), str(cl, "aud"), str(cl, "sub"), str(cl, "nonce")
	if a, ok := cl["aud"].([]interface{}); ok && len(a) == 1 {
		if s, ok := a[0].(string); ok {
			out.Aud = enc(s)
		}
	}
	out.Iat, _ = num(cl["iat"])
	out.Exp, _ = num(cl["exp"])
	out.At, _ = num(cl["auth_time"])
	_, okA := cl["at_hash"]
	_, okC := cl["c_hash"]
	out.AtHash = hashClass(out.Alg, str2(cl["at_hash"]), okA, at)
	out.CHash = hashClass(out.Alg, str2(cl["c_hash"]), okC, code)
	return out
}

func str2(v interface{}) string { s, _ := v.(string); return s }
