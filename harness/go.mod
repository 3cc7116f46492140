module verif/harness

go 1.23.0

require (
	github.com/golang-jwt/jwt v3.2.2+incompatible
	github.com/google/go-querystring v1.2.0 // indirect
	github.com/lyokato/goidc v0.0.0
)

replace github.com/lyokato/goidc => /repo
