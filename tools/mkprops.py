#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))
TE="token_endpoint.go"; AE="authorization_endpoint.go"; RP="resource_protector.go"; AC="grant/authorization_code.go"; RT="grant/refresh_token.go"
PW="grant/password.go"; CC="grant/client_credential.go"; JW="grant/jwt.go"; AS="assertion/error.go"; RS="authorization/response.go"; RQ="authorization/request.go"
p("C01","Token endpoint serves only authenticated clients",
 "The token endpoint issues tokens and touches grant state only for a request whose client proved its identity through a channel the endpoint accepts: HTTP Basic always (form-encoded id and secret), id and secret in the body or query only where that is enabled, a client assertion only where that is enabled. Credentials in the Authorization header take precedence over the other channels. Every other request gets invalid_client (401 with a Basic challenge when the credentials came in the header or there were none, 400 when the presented secret came in a parameter), and a client with the right credentials is never refused as unauthenticated.",
 ["inputs","configurations"],"every placement and value of credentials, every acceptance configuration, every registered client",
 "The root-package tests sample one client and two bad secrets with the default configuration, and cannot even be compiled offline; channel/configuration combinations are never crossed.",
 [TE,"basic_auth/util.go"],[("findClientCredential / validateClientBySecret","token_endpoint.go"),("validateClientByAssertion","token_endpoint.go"),("FindHeaderCredential","basic_auth/util.go")],
 observe=["HTTP response of TokenEndpoint.Handler","DataInterface calls"])
p("C02","Only enabled and permitted grant types are served",
 "A token request is served only when it is a POST whose grant_type is one the endpoint was configured to support and one the authenticated client may use, whichever way the client authenticated. Otherwise nothing is issued or changed and the answer is 405, invalid_request (missing), unsupported_grant_type or unauthorized_client respectively; a supported and permitted grant type is never refused for its type.",
 ["inputs","configurations"],"every HTTP method, grant_type value, set of supported grants, per-client permission and authentication method",
 "Tests try one unsupported and one unauthorized grant type with secret authentication only.",
 [TE]+[AC,RT,PW,CC,JW],[("Support/handlers map","token_endpoint.go"),("CanUseGrantType","token_endpoint.go")])
p("C03","Codes are bound to client, redirect URI and live authorization",
 "An authorization code is redeemed only by the client it was issued to, with exactly the redirect_uri of the authorization request, and while the underlying authorization is still active; anything else is invalid_grant (invalid_request when code or redirect_uri is missing). A request meeting all the conditions on the code succeeds.",
 ["inputs","histories"],"every stored code, presenting client, redirect_uri value (including prefixes, case variants, other registered URIs) and authorization status",
 "Tests use one code, one client and one wrong URI.",
 [AC],[("client, redirect_uri and active-authorization checks","grant/authorization_code.go")],
 [("auth session","code, authorization, redirect URI, verifier, nonce, lifetime","bridge.AuthSession")])
p("C04","A code yields at most one token response",
 "Over any history and any interleaving of token requests, an authorization code yields at most one successful token response, provided the store's disable operation is an atomic test-and-set. A code is disabled exactly when it is redeemed: never by a refused request.",
 ["schedules","histories"],"every interleaving (at store-operation granularity) of concurrent redemptions and every sequence of redemptions, revocations and refreshes",
 "The sequential tests redeem a code once; no test interleaves requests or replays histories.",
 [AC],[("DisableSession before answering","grant/authorization_code.go")],[("session enabled flag","whether the code is still usable","store behind bridge.DataInterface")])
p("C05","Expired authorization codes are never redeemed",
 "A code whose lifetime has elapsed (current second later than creation plus lifetime) is refused with invalid_grant, and a code within its lifetime, up to and including its last second, is not refused for age. The lifetime given to a code when it is issued is the one the provider's policy configures.",
 ["inputs","histories"],"every creation time, lifetime and redemption time, in particular around the boundary",
 "No test exercises code expiry.",
 [AC,AE,RQ],[("lifetime check","grant/authorization_code.go"),("ToSession","authorization/request.go")])
p("C06","PKCE-bound codes need the matching challenge",
 "A code issued to an authorization request that carried a code_verifier is redeemed only with a supported code_challenge_method (plain or S256) and a code_challenge that matches that verifier under that method. A missing or unknown method or missing challenge gives invalid_request, a mismatch invalid_grant, and a match always succeeds; codes issued without a verifier do not need it.",
 ["inputs"],"every verifier, method and challenge, including swapped methods, case variants, prefixes and padded encodings",
 "Tests use one verifier.",
 [AC,"pkce/verifier.go","pkce/crypto.go"],[("FindVerifierByMethod / Verify","pkce/verifier.go"),("code_verifier kept in the session","authorization/request.go")])
p("C07","Refused token requests change nothing",
 "A token request that is refused leaves the provider's state as it was: no token, refresh, authorization or session is created, changed or disabled. The only exceptions are the replay record of an assertion that was authentic, and work already done when the store itself reports a failure.",
 ["inputs","histories","fault_sequences"],"every refused token request of every grant type in every reachable state",
 "Tests look at the response only, never at the store.",
 [TE,AC,RT,PW,CC,JW,AS],[("check-before-mutate order in each grant handler","grant/*.go")],
 observe=["mutating DataInterface calls"])
p("C08","Refresh tokens work only for their client, alive and offline",
 "A refresh token is honoured only for the client its authorization belongs to, while unexpired (through its last second), while that authorization is active and includes offline_access; otherwise invalid_grant (invalid_request when missing). A request meeting these conditions always refreshes exactly the presented token.",
 ["inputs","histories"],"every stored token, presenting client, age, authorization status and scope",
 "Tests refresh one token once.",
 [RT],[("expiry, client and offline_access checks","grant/refresh_token.go")])
p("C09","Direct grants bind the verified owner and permitted scope",
 "The password, client-credentials and JWT grants create an authorization for exactly the verified resource owner (the user whose credentials matched, the client's own owner, the user of the assertion's subject), the authenticated client and the requested scope. They are refused when the owner cannot be established (invalid_grant), a parameter is missing (invalid_request) or the requested scope is not permitted to the client for direct grants (invalid_scope), and succeed otherwise.",
 ["inputs","configurations"],"every user, password, subject, owner, scope and client permission",
 "Tests use one user and the helper client permits every scope.",
 [PW,CC,JW],[("FindUserId / GetOwnerUserId / FindUserIdBySubject","grant/*.go"),("CanUseScope(DirectGrant)","grant/*.go")])
p("C10","Assertions must be authentic, current, addressed here and fresh",
 "A JWT used as client assertion or as assertion grant is accepted only if it is well formed, signed with a key registered for the client it concerns under the algorithm and key id it names, carries a positive exp not in the past, is not used before nbf or iat, is addressed (aud) to this issuer, and is not a replay according to the store. The store is consulted for replay with exactly the client, jti, iat and exp of the assertion, only once the assertion is known to be authentic, and always before it is accepted. Assertions meeting the conditions are accepted; others are refused without a crash.",
 ["inputs","histories"],"every combination of algorithm, key id, signing key and claims, in any order of presentation",
 "Tests cover some missing claims with one HMAC secret; no test covers replay recording, key confusion or malformed client assertions.",
 [AS,TE,JW],[("HandleAssertionError","assertion/error.go"),("RecordAssertionClaims","assertion/error.go")],
 [("recorded assertions","(client, jti) pairs already used","store behind bridge.DataInterface")])
p("C11","Token responses report exactly what was issued",
 "A successful token response is a 200 JSON document, marked no-store/no-cache, of type Bearer, that carries exactly the access token, lifetime and refresh token the store created or refreshed for this very request and the scope of its authorization. A refresh token appears if and only if the store issued one.",
 ["inputs","histories"],"every successful request of every grant type",
 "Tests match a few fields with one value each.",
 ["grant/interface.go",TE,AC,RT,PW,CC,JW],[("NewResponse / JSON","grant/interface.go")])
p("C12","ID tokens carry true, verifiable claims",
 "Every ID token the provider issues, in any flow, verifies under the client's registered ID-token key, algorithm and key id, and states this issuer, the client as audience, the subject of the authorization, iat at the current time, exp after the configured lifetime, the nonce of the authorization request if there was one and the time the user authenticated. Issued on the front channel it binds the access token and code issued with it by at_hash and c_hash (base64url of the left half of the hash named by the algorithm), each present exactly when the artefact is. The code flow returns an ID token if and only if the authorization's scope includes openid.",
 ["inputs","configurations"],"every flow, algorithm family, nonce, auth time, client and user",
 "Tests check one RS256 token without nonce or hashes.",
 ["id_token/id_token.go",AC,AE],[("Gen, GenForImplicit, GenForHybrid","id_token/id_token.go")])
p("C13","Failures of the store or callbacks fail closed",
 "If any store or callback operation reports that it is unsupported, a server error, a failure, or returns nothing, the endpoint does not crash, hands out no token, code or ID token, does not admit a protected request, and gives exactly one error response (server_error or, where the operation's refusal has a meaning of its own, the corresponding error). No error of such an operation is ignored.",
 ["fault_sequences","inputs"],"every operation the request performs, failing in every way its interface allows, on every path of the three endpoints",
 "The helper store never fails; no test injects a fault.",
 [TE,AE,RP,AC,RT,PW,CC,JW,AS],[("error and nil checks after each call","*.go")])
p("C14","Refusals follow the OAuth error formats",
 "Every refusal of the token endpoint is a JSON OAuth error with the HTTP status of its error code, no-store/no-cache headers and the error_uri configured for that error (a wrong HTTP method is a bare 405); every refusal of the resource protector carries a Bearer challenge with the realm, the error code, its status and the configured error_uri. Each refused request gets the error code its first failing condition calls for.",
 ["inputs","configurations"],"every refused request and every error-URI configuration",
 "Tests compare a handful of literal responses.",
 ["oauth_error/errors.go",TE,RP],[("JSON / Header / StatusCode","oauth_error/errors.go")])
p("C15","Authorization responses go only to a registered redirect URI",
 "Unless the request names a known client and a redirect_uri registered for that client, nothing is sent to the redirect_uri and the error screen is shown with the matching reason. All codes, tokens and errors are otherwise sent exactly to that redirect_uri (its own query preserved), both directly and after login or consent, and never elsewhere.",
 ["inputs","configurations"],"every client_id and redirect_uri, including lookalikes, URIs of other clients and URIs with a query",
 "There is no test of the authorization endpoint at all.",
 [AE,RS],[("CanUseRedirectURI gate","authorization_endpoint.go"),("Connector, Success, Error","authorization/response.go")])
p("C16","Response modes are honoured and never weakened",
 "Authorization responses are delivered in the requested response_mode when it is valid and, if the policy asks for it, no less secure than the flow's default; otherwise in the flow's default mode or, by policy, refused with invalid_request through the default mode. In every mode (query, fragment, auto-submitting HTML form) the parameters arrive intact whatever characters they contain, and the form page is not cacheable and admits no injection.",
 ["inputs","configurations"],"every mode value, flow, policy and parameter content",
 "There is no test of the authorization endpoint; one test compares two security levels.",
 [AE,RS,"response_mode/util.go"],[("CompareSecurityLevel / Validate","response_mode/util.go"),("HTMLResponseHandler.render","authorization/response.go")])
p("C17","State is echoed exactly",
 "Every authorization response sent to the client, success or error, direct or after login and consent, carries the state of the request unchanged, and carries no state if the request had none.",
 ["inputs","histories"],"every state value on every outcome of the authorization endpoint",
 "There is no test of the authorization endpoint.",
 [AE,RS,RQ],[("state passed to every Success/Error","authorization_endpoint.go")])
p("C18","The response type decides exactly what is issued",
 "A successful authorization response contains a code, access token (with its type, true lifetime and scope) and ID token exactly as its response_type asks, each created for this request, in any order of the response_type's words; tokens issued here are front-channel tokens. Unknown or missing response types are invalid_request, and flows the client may not use unauthorized_client.",
 ["inputs","configurations"],"every response_type, flow permission and completion path",
 "There is no test of the authorization endpoint; the flow parser is tested alone.",
 [AE,"flow/flow.go"],[("JudgeByResponseType","flow/flow.go"),("complete*FlowRequest","authorization_endpoint.go")])
p("C19","Invalid authorization parameters never reach the user",
 "A request with an unknown display, a max_age that is not an integer or outside the policy's bounds, an invalid prompt combination, a missing nonce where an ID token is issued on the front channel, or an over-long nonce or code_verifier is refused with invalid_request, before any login or consent screen and without issuing anything. Values within the bounds, including the bounds themselves, are not refused.",
 ["inputs","configurations"],"every value of these parameters, in particular at the policy's bounds",
 "There is no test of the authorization endpoint.",
 [AE,"prompt/util.go"],[("parameter validation block","authorization_endpoint.go"),("prompt.Validate","prompt/util.go")])
p("C20","Only a logged-in, fresh enough user is authorized",
 "No consent screen and no artefact is given unless there is a login session; with prompt=login the user must have just logged in for this request, and with max_age (zero included) the authentication must not be older than that. Otherwise the login screen is shown, or login_required returned for prompt=none; a user who meets the conditions is not asked to log in again.",
 ["inputs","histories"],"every login state, authentication time, prompt and max_age, around the boundary",
 "There is no test of the authorization endpoint.",
 [AE],[("ConfirmLoginSession, RequestIsFromLogin, GetAuthTime checks","authorization_endpoint.go")])
p("C21","Consent is skipped only when already given",
 "The consent screen is omitted only if the request does not ask for consent, the client's policy allows omission, and the user has an active authorization for this client with the same set of scopes, given less than the policy's omission period ago; in that case it is omitted. Otherwise consent is always asked, and nothing is issued before it is given.",
 ["inputs","configurations","histories"],"every stored authorization, scope, age, prompt and client policy",
 "There is no test of the authorization endpoint; the helper store does not even implement the lookup.",
 [AE,"scope/util.go"],[("NoConsentPromptPolicy branch","authorization_endpoint.go"),("scope.Same","scope/util.go")])
p("C22","prompt=none never interacts and answers only under policy",
 "A request with prompt=none never shows a login or consent screen. It succeeds only if the client's policy allows it, the user is logged in, the hint the policy demands (login_hint, or an authentic unexpired id_token_hint with a subject) is present and matches the logged-in user, and consent was already given; otherwise it gets interaction_required, login_required, invalid_request or consent_required accordingly.",
 ["inputs","configurations"],"every policy, hint, login state and stored authorization",
 "There is no test of the authorization endpoint.",
 [AE],[("NonePromptPolicy switch","authorization_endpoint.go")])
p("C23","Requested scopes are governed",
 "At the authorization endpoint offline_access is granted only when consent is explicitly prompted and the flow is not implicit (it is silently dropped otherwise, leaving every other scope), and not on its own unless empty scopes are allowed. An empty scope is refused unless allowed, a response type with an ID token requires openid, and a scope the client may not use in that flow is invalid_scope; permitted scopes are granted unaltered.",
 ["inputs","configurations"],"every scope list, flow, prompt, policy and client permission",
 "There is no test of the authorization endpoint; scope helpers are tested on single examples.",
 [AE,"scope/util.go"],[("offline_access handling and CanUseScope","authorization_endpoint.go"),("Include/Remove","scope/util.go")])
p("C24","What the user approves is exactly what is granted",
 "The request shown for consent or login is the client's request (client, flow, scope, redirect URI, mode, state, nonce, verifier, display, prompt, max_age, locale, hints), survives being encoded and decoded across screens, and on approval yields an authorization for exactly that user, client and scope and a code session with that redirect URI, verifier, nonce, lifetime and auth time. On cancellation the client gets access_denied and nothing is created.",
 ["inputs","histories"],"every request and every path through login, consent, approval and cancellation",
 "There is no test of the authorization endpoint or of the encoding.",
 [AE,RQ,"flow/flow.go"],[("authorization.Request Encode/DecodeRequest/ToSession","authorization/request.go"),("CompleteRequest / CancelRequest","authorization_endpoint.go")])
p("C25","Protected resources admit only live tokens, as their owner",
 "The resource protector admits a request only if its access token is known, unexpired (through its last second, counted from its last refresh) and its authorization is active; otherwise it refuses with 401 invalid_token (400 invalid_request when no token is given). An admitted request carries exactly the user, client and scope of that authorization in the identity headers, overriding anything the caller put there; a live token is always admitted.",
 ["inputs","histories"],"every token, age, refresh history, authorization status and caller-supplied header",
 "One test with one token and one unknown token.",
 [RP],[("Validate","resource_protector.go")])
p("C26","Access tokens are taken only from the configured places",
 "The resource protector takes the access token from the Authorization Bearer header (scheme case-insensitive) always, from the request body only if body acceptance is configured, and from the query only if that too is; the header takes precedence. In the configured places a token is always found.",
 ["inputs","configurations"],"every placement of one or two tokens under every configuration",
 "Only the header is tested.",
 [RP],[("findTokenFromRequest","resource_protector.go")])
p("C27","Per-path scope requirements are enforced",
 "With per-path scope requirements a request is admitted only if its token's authorization includes every scope required for exactly that path, else it is refused with 403 insufficient_scope; paths without requirements need only a valid token. Scopes match as whole words.",
 ["inputs","configurations"],"every path, requirement list and token scope",
 "No test calls the scope-checking variant.",
 [RP,"scope/util.go"],[("ValidateWithScopes / IncludeAll","resource_protector.go")])
p("C28","Concurrent requests do not influence each other",
 "Requests of different clients and users handled at the same time by the same endpoint objects each get the response they would get alone: no parameter, identity, token, error or header of one appears in or alters another, and each reads and writes only through the data interface, callbacks, request and response writer given for it.",
 ["schedules"],"every interleaving, at the points where the endpoints call their environment, of pairs of requests on shared endpoint objects",
 "Tests are sequential.",
 [TE,AE,RP,AC,AS],[("no per-request state on shared objects","*.go")])
p("C29","Credentials trace back to what a user or client authorized",
 "In every history of authorizations, logins, consents, redemptions, refreshes, direct grants, revocations and time passing, a request admitted to a protected resource is for a user, client and scope that this user approved for this client (or that was directly granted), by a token descending from that approval, not revoked since and not expired. A history that follows the protocol always reaches the resource; when a registration, permission, key, secret, policy or account changes, every later request is judged by what is registered then.",
 ["histories"],"every history of up to the explored length over several users, clients and scopes",
 "No test runs a whole protocol history.",
 [TE,AE,RP,AC,RT,PW,CC,JW],[("whole pipeline","*.go")])
p("C30","The key-set document publishes exactly the registered keys",
 "The JWK endpoint serves a JSON key set that contains exactly the public keys registered at it, the last one under each key id, and nothing private, encoded so that each can be recovered bit for bit. What is no RSA public key is refused and changes nothing; a key loaded from PEM or read back from a document by its id is the one that was written.",
 ["inputs","configurations","histories"],"every set of RSA public keys and every order of registrations and publications",
 "One key is tested, and that test cannot be compiled here.",
 ["jwk_endpoint.go","crypto/key.go"],[("PublicKeysJWK","crypto/key.go")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
