// Package jwk stands in for github.com/lestrrat/go-jwx/jwk, which is not
// available offline: the part of its interface that goidc uses, with the
// encoding of RFC 7517/7518. It is part of the check of C30, not of goidc.
package jwk

import (
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
)

const (
	KeyTypeKey   = "kty"
	KeyUsageKey  = "use"
	KeyOpsKey    = "key_ops"
	AlgorithmKey = "alg"
	KeyIDKey     = "kid"
)

type Key interface {
	Get(string) (interface{}, bool)
	Set(string, interface{}) error
	KeyID() string
	Materialize() (interface{}, error)
	fields() map[string]interface{}
}

type head struct{ h map[string]interface{} }

func (h *head) Get(k string) (interface{}, bool) { v, ok := h.h[k]; return v, ok }
func (h *head) Set(k string, v interface{}) error {
	if k == KeyIDKey || k == AlgorithmKey || k == KeyUsageKey {
		s, ok := v.(string)
		if !ok {
			return fmt.Errorf("invalid value for %s", k)
		}
		v = s
	}
	h.h[k] = v
	return nil
}
func (h *head) KeyID() string { s, _ := h.h[KeyIDKey].(string); return s }
func (h *head) base(kty string) map[string]interface{} {
	m := map[string]interface{}{}
	for k, v := range h.h {
		if s, ok := v.(string); ok && s == "" {
			continue
		}
		m[k] = v
	}
	m[KeyTypeKey] = kty
	return m
}

type RSAPublicKey struct {
	head
	key *rsa.PublicKey
}

type RSAPrivateKey struct {
	head
	key *rsa.PrivateKey
}

type SymmetricKey struct {
	head
	key []byte
}

func enc(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func (k *RSAPublicKey) Materialize() (interface{}, error) { return k.key, nil }
func (k *RSAPublicKey) fields() map[string]interface{} {
	m := k.base("RSA")
	m["n"] = enc(k.key.N.Bytes())
	m["e"] = enc(big.NewInt(int64(k.key.E)).Bytes())
	return m
}
func (k *RSAPublicKey) MarshalJSON() ([]byte, error) { return json.Marshal(k.fields()) }

func (k *RSAPrivateKey) Materialize() (interface{}, error) { return k.key, nil }
func (k *RSAPrivateKey) fields() map[string]interface{} {
	m := k.base("RSA")
	m["n"] = enc(k.key.N.Bytes())
	m["e"] = enc(big.NewInt(int64(k.key.E)).Bytes())
	m["d"] = enc(k.key.D.Bytes())
	m["p"] = enc(k.key.Primes[0].Bytes())
	m["q"] = enc(k.key.Primes[1].Bytes())
	return m
}
func (k *RSAPrivateKey) MarshalJSON() ([]byte, error) { return json.Marshal(k.fields()) }
func (k *RSAPrivateKey) PublicKey() (*RSAPublicKey, error) {
	return &RSAPublicKey{head{map[string]interface{}{}}, &k.key.PublicKey}, nil
}

func (k *SymmetricKey) Materialize() (interface{}, error) { return k.key, nil }
func (k *SymmetricKey) fields() map[string]interface{} {
	m := k.base("oct")
	m["k"] = enc(k.key)
	return m
}
func (k *SymmetricKey) MarshalJSON() ([]byte, error) { return json.Marshal(k.fields()) }

func New(key interface{}) (Key, error) {
	h := head{map[string]interface{}{}}
	switch v := key.(type) {
	case *rsa.PublicKey:
		if v == nil {
			return nil, errors.New("nil key")
		}
		return &RSAPublicKey{h, v}, nil
	case *rsa.PrivateKey:
		if v == nil {
			return nil, errors.New("nil key")
		}
		return &RSAPrivateKey{h, v}, nil
	case []byte:
		return &SymmetricKey{h, v}, nil
	}
	return nil, fmt.Errorf("invalid key type %T", key)
}

type Set struct {
	Keys []Key `json:"keys"`
}

func (s Set) LookupKeyID(kid string) []Key {
	var l []Key
	for _, k := range s.Keys {
		if k.KeyID() == kid {
			l = append(l, k)
		}
	}
	return l
}

func dec(m map[string]interface{}, f string) ([]byte, error) {
	s, ok := m[f].(string)
	if !ok || s == "" {
		return nil, fmt.Errorf("missing %s", f)
	}
	return base64.RawURLEncoding.DecodeString(s)
}

func one(m map[string]interface{}) (Key, error) {
	h := head{map[string]interface{}{}}
	for _, f := range []string{KeyIDKey, AlgorithmKey, KeyUsageKey} {
		if s, ok := m[f].(string); ok {
			h.h[f] = s
		}
	}
	switch m[KeyTypeKey] {
	case "RSA":
		n, err := dec(m, "n")
		if err != nil {
			return nil, err
		}
		e, err := dec(m, "e")
		if err != nil {
			return nil, err
		}
		pub := rsa.PublicKey{N: new(big.Int).SetBytes(n), E: int(new(big.Int).SetBytes(e).Int64())}
		if _, ok := m["d"]; !ok {
			return &RSAPublicKey{h, &pub}, nil
		}
		d, err := dec(m, "d")
		if err != nil {
			return nil, err
		}
		return &RSAPrivateKey{h, &rsa.PrivateKey{PublicKey: pub, D: new(big.Int).SetBytes(d)}}, nil
	case "oct":
		k, err := dec(m, "k")
		if err != nil {
			return nil, err
		}
		return &SymmetricKey{h, k}, nil
	}
	return nil, fmt.Errorf("unsupported kty %v", m[KeyTypeKey])
}

func Parse(buf []byte) (*Set, error) {
	var m map[string]interface{}
	if err := json.Unmarshal(buf, &m); err != nil {
		return nil, err
	}
	s := &Set{}
	l, ok := m["keys"].([]interface{})
	if !ok {
		k, err := one(m)
		if err != nil {
			return nil, err
		}
		s.Keys = append(s.Keys, k)
		return s, nil
	}
	for _, x := range l {
		o, ok := x.(map[string]interface{})
		if !ok {
			return nil, errors.New("a key is not an object")
		}
		k, err := one(o)
		if err != nil {
			return nil, err
		}
		s.Keys = append(s.Keys, k)
	}
	return s, nil
}

func ParseString(s string) (*Set, error) { return Parse([]byte(s)) }
