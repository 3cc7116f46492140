From 366fac60be21fef76dc71d11847cc25d3ce459f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 01/19] fix: let ResourceProtector look at body and query when
 no bearer header is given

---
 resource_protector.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/resource_protector.go b/resource_protector.go
index f22331e..0ae56c4 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -51,20 +51,9 @@ func (rp *ResourceProtector) SetErrorURIBulder(builder oer.OAuthErrorURIBuilder)
 }
 
 func (rp *ResourceProtector) findTokenFromRequest(r *http.Request) string {
-	header := r.Header.Get("Authorization")
-	if header == "" {
-		return ""
-	}
-	parts := strings.Split(header, " ")
-	if len(parts) < 2 {
-		return ""
-	}
-	if strings.ToLower(parts[0]) != "bearer" {
-		return ""
-	}
-	token := parts[1]
-	if token != "" {
-		return token
+	parts := strings.Split(r.Header.Get("Authorization"), " ")
+	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
+		return parts[1]
 	}
 	switch rp.tokenAcceptanceMethod {
 	case FromHeader:
-- 
2.43.0


From 50b03988828357124e8cead7f4f2e7f9756fe735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 02/19] fix: check auth info instead of token for nil in
 ResourceProtector

---
 resource_protector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource_protector.go b/resource_protector.go
index 0ae56c4..c954413 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -210,7 +210,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 			return false
 		}
 	} else {
-		if at == nil {
+		if info == nil {
 
 			rp.logger.Error(log.ProtectedResourceLog(r.URL.Path, log.InterfaceError,
 				map[string]string{"method": "FindActiveAuthInfoById"},
-- 
2.43.0


From 018d2c8a2fcf486c923b9dfb209691fce3479341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 03/19] fix: refuse expired authorization codes

---
 grant/authorization_code.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/grant/authorization_code.go b/grant/authorization_code.go
index f3b29f6..39d45ab 100644
--- a/grant/authorization_code.go
+++ b/grant/authorization_code.go
@@ -94,6 +94,18 @@ func AuthorizationCode() *GrantHandler {
 					return nil, oer.NewOAuthSimpleError(oer.ErrServerError)
 				}
 			}
+
+			if sess.GetExpiresIn()+sess.GetCreatedAt() < requestedTime.Unix() {
+
+				logger.Info(log.TokenEndpointLog(TypeAuthorizationCode,
+					log.NoEnabledAuthSession,
+					map[string]string{"code": code, "client_id": c.GetId()},
+					"expired code"))
+
+				return nil, oer.NewOAuthError(oer.ErrInvalidGrant,
+					"expired 'code'")
+			}
+
 			info, err := sdi.FindActiveAuthInfoById(sess.GetAuthId())
 			if err != nil {
 				if err.Type() == bridge.ErrFailed {
-- 
2.43.0


From 7a0b67a26693624ac06fd29f5c5aca39f017883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 04/19] fix: check CanUseGrantType for clients authenticated by
 assertion

---
 token_endpoint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/token_endpoint.go b/token_endpoint.go
index 32c4f2b..fa9a76b 100644
--- a/token_endpoint.go
+++ b/token_endpoint.go
@@ -267,6 +267,15 @@ func (te *TokenEndpoint) validateClientByAssertion(w http.ResponseWriter,
 		return nil, false
 	}
 
+	if !c.CanUseGrantType(gt) {
+
+		te.logger.Info(log.TokenEndpointLog(gt, log.UnauthorizedGrantType,
+			map[string]string{"client_id": c.GetId()}, "unauthorized 'grant_type'."))
+
+		te.fail(w, oer.NewOAuthSimpleError(oer.ErrUnauthorizedClient))
+		return nil, false
+	}
+
 	return c, true
 }
 
-- 
2.43.0


From 8e483151bdb46957967de5a4e9b62143de70f81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 05/19] fix: don't panic on malformed client_assertion

---
 assertion/error.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/assertion/error.go b/assertion/error.go
index e321c91..92a1d3f 100644
--- a/assertion/error.go
+++ b/assertion/error.go
@@ -46,9 +46,10 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 
 		if ve.Errors&jwt.ValidationErrorMalformed == jwt.ValidationErrorMalformed {
 
+			// the client may not have been looked up yet at this stage
 			logger.Debug(log.TokenEndpointLog(gt,
 				log.AssertionConditionMismatch,
-				map[string]string{"assertion": a, "client_id": c.GetId()},
+				map[string]string{"assertion": a},
 				"invalid 'assertion' format"))
 
 			return oer.NewOAuthError(oer.ErrInvalidGrant,
-- 
2.43.0


From dad5574bc55e38e931ede5d89ea7fe1a0ac50efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 06/19] fix: don't accept assertions whose exp is zero as
 never-expiring

---
 assertion/error.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/assertion/error.go b/assertion/error.go
index 92a1d3f..9a19781 100644
--- a/assertion/error.go
+++ b/assertion/error.go
@@ -140,6 +140,18 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 			"'exp' parameter not found in assertion")
 	}
 
+	// jwt.Parse treats zero as "not set", so, requires effective 'exp' here
+	if !claims.VerifyExpiresAt(jwt.TimeFunc().Unix(), true) {
+
+		logger.Info(log.TokenEndpointLog(gt,
+			log.AssertionConditionMismatch,
+			map[string]string{"assertion": a, "client_id": c.GetId()},
+			"assertion expired"))
+
+		return oer.NewOAuthError(oer.ErrInvalidGrant,
+			"assertion expired")
+	}
+
 	switch num := claims["iat"].(type) {
 	case json.Number:
 		if iat, er = num.Int64(); er == nil {
-- 
2.43.0


From 7d8198ce2e78cb1fc4e2882e8df4396c6c41eac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 07/19] fix: name of expires_in parameter in implicit flow
 response

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index f96be6f..ba3462c 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1115,7 +1115,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 		at = t.GetAccessToken()
 		params["access_token"] = at
 		params["token_type"] = "bearer"
-		params["rexpires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
+		params["expires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
 	}
 
 	authTime, err := callbacks.GetAuthTime()
-- 
2.43.0


From c265496d702e28e6f9cb61106fb3880ff348342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 08/19] fix: escape redirect_uri in form_post response

---
 authorization/response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization/response.go b/authorization/response.go
index 61358d0..06ac8df 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -124,7 +124,7 @@ func (h *HTMLResponseHandler) Error(uri, typ, desc, state string) {
 
 func (h *HTMLResponseHandler) render(uri string, params map[string]string) {
 	doc := `<html><head><title>Submit This Form</title></head><body onload="javascript:document.forms[0].submit()">`
-	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, uri)
+	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, html.EscapeString(uri))
 	for k, v := range params {
 		doc = doc + fmt.Sprintf(`<input type="hidden" name="%s" value="%s" />`, k, html.EscapeString(v))
 	}
-- 
2.43.0


From 215016d9d83a3c88d08db7835c7071ee59638220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 09/19] fix: handle repeated prompt=none as none

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index ba3462c..60aed0e 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -549,7 +549,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 		LoginHint:    r.FormValue("login_hint"),
 	}
 
-	if req.Prompt == prompt.None {
+	if prompt.IncludeNone(req.Prompt) {
 
 		policy := clnt.GetNonePromptPolicy()
 
-- 
2.43.0


From a5e304b72c0304a7aa282d121f5db97c97896479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 10/19] fix: require login session for prompt=none with
 id_token_hint

---
 authorization_endpoint.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 60aed0e..f61e8b6 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -726,6 +726,26 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				return false
 			}
 
+			isLoginSession, err := callbacks.ConfirmLoginSession()
+
+			if err != nil {
+
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ConfirmLoginSession",
+					},
+					err.Error()))
+
+				rh.Error(ruri, "server_error", "", state)
+				return false
+			}
+
+			if !isLoginSession {
+				rh.Error(ruri, "login_required", "", state)
+				return false
+			}
+
 			t, jwt_err := jwt.Parse(req.IdTokenHint, func(t *jwt.Token) (interface{}, error) {
 				return clnt.GetIdTokenKey(), nil
 			})
-- 
2.43.0


From 086493f3d9c7227cb1af4dbd1f7d6a83c18fe2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 11/19] fix: verify id_token_hint with public key

---
 authorization_endpoint.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index f61e8b6..57eb299 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1,6 +1,7 @@
 package goidc
 
 import (
+	"crypto"
 	"encoding/json"
 	"fmt"
 	"net/http"
@@ -747,7 +748,12 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 			}
 
 			t, jwt_err := jwt.Parse(req.IdTokenHint, func(t *jwt.Token) (interface{}, error) {
-				return clnt.GetIdTokenKey(), nil
+				key := clnt.GetIdTokenKey()
+				// with asymmetric algorithm, signature is verified by public key
+				if signer, ok := key.(crypto.Signer); ok {
+					return signer.Public(), nil
+				}
+				return key, nil
 			})
 
 			if jwt_err != nil {
-- 
2.43.0


From f68f9674bce455c8f066d2fc0954cedbee46a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 12/19] fix: respect max_age on prompt=none

---
 authorization_endpoint.go | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 57eb299..7443ac1 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -625,7 +625,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeWithoutInteraction(callbacks, r, rh, info, req)
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -712,7 +712,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeWithoutInteraction(callbacks, r, rh, info, req)
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -846,7 +846,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeWithoutInteraction(callbacks, r, rh, info, req)
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -1052,6 +1052,39 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 	return a.complete(callbacks, r, rh, info, req)
 }
 
+// completeWithoutInteraction completes the request which includes 'prompt=none'.
+// the user can't be re-authenticated here, so, returns error if it's required by 'max_age'.
+func (a *AuthorizationEndpoint) completeWithoutInteraction(
+	callbacks bridge.AuthorizationCallbacks,
+	r *http.Request,
+	rh authorization.ResponseHandler,
+	info bridge.AuthInfo, req *authorization.Request) bool {
+	if req.MaxAge > 0 {
+		authTime, err := callbacks.GetAuthTime()
+		if err != nil {
+			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+				log.InterfaceError,
+				map[string]string{
+					"method": "GetAuthTime",
+				},
+				err.Error()))
+			rh.Error(req.RedirectURI, "server_error", "", req.State)
+			return false
+		}
+		if req.MaxAge < a.currentTime().Unix()-authTime {
+			a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path,
+				log.LoginRequired,
+				map[string]string{
+					"prompt": req.Prompt,
+				},
+				"'auth_time' is over 'max_age'"))
+			rh.Error(req.RedirectURI, "login_required", "", req.State)
+			return false
+		}
+	}
+	return a.complete(callbacks, r, rh, info, req)
+}
+
 func (a *AuthorizationEndpoint) complete(
 	callbacks bridge.AuthorizationCallbacks,
 	r *http.Request,
-- 
2.43.0


From af73d7536384bc7ac29a30b3ae16500afc004a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 13/19] fix: don't ignore max_age=0

---
 authorization_endpoint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 7443ac1..5f81ab8 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -938,7 +938,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 		return false
 	}
 
-	if req.MaxAge > 0 {
+	if mas != "" {
 		age := a.currentTime().Unix() - authTime
 		if req.MaxAge < age {
 			a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path,
@@ -1059,7 +1059,7 @@ func (a *AuthorizationEndpoint) completeWithoutInteraction(
 	r *http.Request,
 	rh authorization.ResponseHandler,
 	info bridge.AuthInfo, req *authorization.Request) bool {
-	if req.MaxAge > 0 {
+	if r.FormValue("max_age") != "" {
 		authTime, err := callbacks.GetAuthTime()
 		if err != nil {
 			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
-- 
2.43.0


From 12ddbc92e41ed9a4d76914b65fb2b5d8441433d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 14/19] fix: handle errors from ShowLoginScreen

---
 authorization_endpoint.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 5f81ab8..accc973 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -921,7 +921,19 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				},
 				"force-login is required by 'prompt'"))
 
-			callbacks.ShowLoginScreen(req)
+			err = callbacks.ShowLoginScreen(req)
+			if err != nil {
+
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ShowLoginScreen",
+					},
+					err.Error()))
+
+				rh.Error(ruri, "server_error", "", state)
+				return false
+			}
 			return false
 		}
 	}
@@ -947,7 +959,19 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 					"max_age": mas,
 				},
 				"'auth_time' is over 'max_age', so, show login page."))
-			callbacks.ShowLoginScreen(req)
+			err = callbacks.ShowLoginScreen(req)
+			if err != nil {
+
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ShowLoginScreen",
+					},
+					err.Error()))
+
+				rh.Error(ruri, "server_error", "", state)
+				return false
+			}
 			return false
 		}
 	}
-- 
2.43.0


From f93d860bdeb31fc49417c745a4f7a3ac9c26495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 15/19] fix: don't panic on nil from DataInterface while
 completing authorization

---
 authorization_endpoint.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index accc973..a989c7c 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1069,7 +1069,7 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 		return false
 	}
 	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
-	if serr != nil {
+	if serr != nil || info == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1176,7 +1176,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 	req *authorization.Request) bool {
 
 	clnt, serr := a.di.FindClientById(req.ClientId)
-	if serr != nil {
+	if serr != nil || clnt == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1191,7 +1191,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 	at := ""
 	if req.Flow.RequireAccessToken {
 		t, serr := a.di.CreateOAuthToken(info, false)
-		if serr != nil {
+		if serr != nil || t == nil {
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
@@ -1277,7 +1277,7 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 	}
 
 	clnt, serr := a.di.FindClientById(req.ClientId)
-	if serr != nil {
+	if serr != nil || clnt == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1294,7 +1294,7 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 	at := ""
 	if req.Flow.RequireAccessToken {
 		t, serr := a.di.CreateOAuthToken(info, false)
-		if serr != nil {
+		if serr != nil || t == nil {
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
-- 
2.43.0


From 75cfb608698be7902bdf0e9e4a5a5b64a550bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 16/19] fix: decode client credentials in Basic header

---
 basic_auth/util.go | 22 +++++++++++++++++++++-
 token_endpoint.go  |  3 ++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/basic_auth/util.go b/basic_auth/util.go
index adb4c68..3545881 100644
--- a/basic_auth/util.go
+++ b/basic_auth/util.go
@@ -15,8 +15,28 @@ func Header(uid, pass string) string {
 	return "Basic " + Token(uid, pass)
 }
 
-func FindClientCredential(r *http.Request) (string, string, bool) {
+// FindHeaderCredential picks up client credential from 'Authorization' header.
+// RFC6749 2.3.1: client_id and client_secret are encoded with
+// "application/x-www-form-urlencoded" as Token function does.
+func FindHeaderCredential(r *http.Request) (string, string, bool) {
 	cid, sec, exists := r.BasicAuth()
+	if !exists {
+		return "", "", false
+	}
+	return unescape(cid), unescape(sec), true
+}
+
+func unescape(v string) string {
+	decoded, err := url.QueryUnescape(v)
+	if err != nil {
+		// not encoded by client
+		return v
+	}
+	return decoded
+}
+
+func FindClientCredential(r *http.Request) (string, string, bool) {
+	cid, sec, exists := FindHeaderCredential(r)
 	if exists {
 		return cid, sec, true
 	}
diff --git a/token_endpoint.go b/token_endpoint.go
index fa9a76b..a76bee9 100644
--- a/token_endpoint.go
+++ b/token_endpoint.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/golang-jwt/jwt"
 	"github.com/lyokato/goidc/assertion"
+	"github.com/lyokato/goidc/basic_auth"
 	"github.com/lyokato/goidc/bridge"
 	"github.com/lyokato/goidc/grant"
 	"github.com/lyokato/goidc/io"
@@ -372,7 +373,7 @@ func (te *TokenEndpoint) failByInvalidClientError(w http.ResponseWriter, inHeade
 }
 
 func (te *TokenEndpoint) findClientCredential(r *http.Request) (string, string, bool, bool) {
-	cid, sec, exists := r.BasicAuth()
+	cid, sec, exists := basic_auth.FindHeaderCredential(r)
 	if exists {
 		return cid, sec, true, true
 	}
-- 
2.43.0


From d59c72da12cad6751bf05d3ee4e30dbe71825aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 17/19] fix: don't put second '?' on redirect_uri ending with
 '?'

---
 authorization/response.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/authorization/response.go b/authorization/response.go
index 06ac8df..6c68eec 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -36,7 +36,10 @@ func (t ResponseParamType) Connector(uri string) string {
 	u, _ := url.Parse(uri)
 	switch t {
 	case ParamTypeQuery:
-		if len(u.RawQuery) == 0 {
+		if u.ForceQuery {
+			// uri already ends with "?"
+			return ""
+		} else if len(u.RawQuery) == 0 {
 			return "?"
 		} else {
 			return "&"
-- 
2.43.0


From cdedb8b8d49ed285345d504b50d7f7c3ec7dcc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 18/19] fix: refuse id_token_hint with exp=0

---
 authorization_endpoint.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index a989c7c..399b8b9 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -784,6 +784,12 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 					state)
 				return false
 			}
+			// zero is treated as 'not set' by jwt.Parse
+			if !claims.VerifyExpiresAt(jwt.TimeFunc().Unix(), true) {
+				rh.Error(ruri, "invalid_request", "'id_token_hint' is expired.",
+					state)
+				return false
+			}
 			sub := ""
 			if found, ok := claims["sub"].(string); ok {
 				sub = found
-- 
2.43.0


From d158033f8836bfb3b28a785f403a9d4297c13a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:05 +0000
Subject: [PATCH 19/19] fix: quote the realm of the token endpoint's Basic
 challenge

---
 token_endpoint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/token_endpoint.go b/token_endpoint.go
index a76bee9..a182977 100644
--- a/token_endpoint.go
+++ b/token_endpoint.go
@@ -3,6 +3,7 @@ package goidc
 import (
 	"fmt"
 	"net/http"
+	"strconv"
 
 	"github.com/golang-jwt/jwt"
 	"github.com/lyokato/goidc/assertion"
@@ -424,7 +425,7 @@ func (te *TokenEndpoint) success(w http.ResponseWriter, res *grant.Response) {
 }
 
 func (te *TokenEndpoint) failWithAuthHeader(w http.ResponseWriter, err *oer.OAuthError) {
-	w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=\"%s\"", te.realm))
+	w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=%s", strconv.Quote(te.realm)))
 	setCommonResponseHeader(w)
 	if err.URI == "" && te.errorURIBuilder != nil {
 		err.URI = te.errorURIBuilder(err.Type)
-- 
2.43.0

