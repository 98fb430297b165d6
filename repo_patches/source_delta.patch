From dc38ecbbdd2cefe78ae93d3fe453e1c53fbc6c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:02 +0000
Subject: [PATCH 01/46] fix: make in-memory DPoP proof registration atomic

Two concurrent presentations of the same proof both passed the Exists check
and both registered, so a proof could be replayed.
---
 server/storage/inmemory/proof.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/storage/inmemory/proof.go b/server/storage/inmemory/proof.go
index d22c3ba..a42a534 100644
--- a/server/storage/inmemory/proof.go
+++ b/server/storage/inmemory/proof.go
@@ -19,6 +19,7 @@ package inmemory
 
 import (
 	"context"
+	"fmt"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -43,8 +44,10 @@ func DPoPProofs() storage.DPoP {
 // -----------------------------------------------------------------------------
 
 func (s *proofCache) Register(ctx context.Context, id string) error {
-	// Insert in cache
-	s.backend.Set(id, id, cache.DefaultExpiration)
+	// Insert in cache, the first registration wins
+	if err := s.backend.Add(id, id, cache.DefaultExpiration); err != nil {
+		return fmt.Errorf("proof is already registered: %w", err)
+	}
 	// No error
 	return nil
 }
-- 
2.43.0


From 8630bcc782bcbd52c63530bea12790634bca10f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:03 +0000
Subject: [PATCH 02/46] fix: only one deletion of an in-memory authorization
 code succeeds

Concurrent consumers which both read the entry before its deletion were both
allowed to use it.
---
 server/storage/inmemory/authorization_code_session.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index e0822e8..e634476 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -30,6 +31,8 @@ import (
 )
 
 type sessionStorage struct {
+	deleteMutex sync.Mutex
+
 	backend *cache.Cache
 }
 
@@ -54,6 +57,14 @@ func (s *sessionStorage) Register(ctx context.Context, issuer, code string, req
 }
 
 func (s *sessionStorage) Delete(ctx context.Context, issuer, code string) error {
+	s.deleteMutex.Lock()
+	defer s.deleteMutex.Unlock()
+
+	// Only one caller can remove the entry
+	if _, found := s.backend.Get(s.deriveKey(issuer, code)); !found {
+		return storage.ErrNotFound
+	}
+
 	s.backend.Delete(s.deriveKey(issuer, code))
 	// No error
 	return nil
-- 
2.43.0


From e7db579949e452f2b4366bd723e0658c2f5de3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:03 +0000
Subject: [PATCH 03/46] fix: only one deletion of an in-memory authorization
 request succeeds

Concurrent consumers which both read the entry before its deletion were both
allowed to use it.
---
 server/storage/inmemory/authorization_request.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index 6c24209..6e47a70 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -30,6 +31,8 @@ import (
 )
 
 type authorizationRequestStorage struct {
+	deleteMutex sync.Mutex
+
 	backend *cache.Cache
 }
 
@@ -54,6 +57,14 @@ func (s *authorizationRequestStorage) Register(ctx context.Context, issuer, requ
 }
 
 func (s *authorizationRequestStorage) Delete(ctx context.Context, issuer, requestURI string) error {
+	s.deleteMutex.Lock()
+	defer s.deleteMutex.Unlock()
+
+	// Only one caller can remove the entry
+	if _, found := s.backend.Get(s.deriveKey(issuer, requestURI)); !found {
+		return storage.ErrNotFound
+	}
+
 	s.backend.Delete(s.deriveKey(issuer, requestURI))
 	// No error
 	return nil
-- 
2.43.0


From 7c190e57dcce17ffd7ada768c2b40c6a701899d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:25 +0000
Subject: [PATCH 04/46] fix: bind request_uri to the client which pushed the
 request

RFC 9126 section 2.2: the request_uri must be bound to the client that posted
the authorization request.
---
 server/services/authorization/service.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index 0270f37..854095f 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -117,6 +117,12 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.AuthorizeRequest) (
 			return res, fmt.Errorf("unable to retrieve request by uri: %w", err)
 		}
 
+		// Only the client which pushed the request can use it
+		if req.Client != nil && ar != nil && ar.ClientId != req.Client.ClientId {
+			res.Error = rfcerrors.InvalidRequest().Build()
+			return res, fmt.Errorf("unable to use the authorization request of another client")
+		}
+
 		// Override request
 		req.Request = ar
 	}
-- 
2.43.0


From ac7816ed77fc4831e1657ef234938a0ed3073bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:27 +0000
Subject: [PATCH 05/46] fix: return the requested response_mode

The authorization response never carried the validated response mode, so a
response requested as a JWT was delivered in plain.
---
 server/services/authorization/service.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index 854095f..e9da651 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -158,6 +158,10 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.AuthorizeRequest) (
 	res.State = req.Request.State
 	// Assign redirectUri to response
 	res.RedirectUri = req.Request.RedirectUri
+	// Assign response mode to response
+	if req.Request.ResponseMode != nil {
+		res.ResponseMode = *req.Request.ResponseMode
+	}
 	// Assign client
 	res.ClientId = req.Request.ClientId
 	// Assign expiration
-- 
2.43.0


From 23209c1ca3ba1201c98fbfc578f1079fccab3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:28 +0000
Subject: [PATCH 06/46] fix: generate request_uri values which pass their own
 validation

Generate returned a bare random string where Validate requires the urn:solid:
prefix: no pushed authorization request could ever be used.
---
 sdk/generator/request_uri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/generator/request_uri.go b/sdk/generator/request_uri.go
index c20ec95..1ab08a9 100644
--- a/sdk/generator/request_uri.go
+++ b/sdk/generator/request_uri.go
@@ -44,7 +44,7 @@ type requestUriGenerator struct{}
 
 func (c *requestUriGenerator) Generate(_ context.Context, _ string) (string, error) {
 	code := uniuri.NewLen(DefaultRequestURILen)
-	return code, nil
+	return "urn:solid:" + code, nil
 }
 
 func (c *requestUriGenerator) Validate(_ context.Context, issuer, in string) error {
-- 
2.43.0


From cd2b996051913fdc02a4bc680a4149c2745fc484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:30 +0000
Subject: [PATCH 07/46] fix: anchor the request_uri syntax check

---
 sdk/generator/request_uri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/generator/request_uri.go b/sdk/generator/request_uri.go
index 1ab08a9..8a17c31 100644
--- a/sdk/generator/request_uri.go
+++ b/sdk/generator/request_uri.go
@@ -31,7 +31,7 @@ const (
 	DefaultRequestURILen = 32
 )
 
-var requestURIMatcher = regexp.MustCompile(`urn:solid:[A-Za-z0-9]{32}`)
+var requestURIMatcher = regexp.MustCompile(`^urn:solid:[A-Za-z0-9]{32}$`)
 
 // DefaultRequestURI returns the default request uri generator.
 func DefaultRequestURI() RequestURI {
-- 
2.43.0


From 5f6ddb7016a3a3956141d566677dbf444e8df0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:48 +0000
Subject: [PATCH 08/46] fix: bind authorization codes to the client they were
 issued to

Any client with the same redirect_uri could redeem the code of another client.
---
 server/services/token/grant_authorization_code.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index 7502547..bd3eaeb 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -124,6 +124,12 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 		return res, fmt.Errorf("unable to remove authorization session from code '%s': %w", grant.Code, err)
 	}
 
+	// Only the client which requested the code can use it
+	if req.Client != nil && ar.Request.ClientId != req.Client.ClientId {
+		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
+		return res, fmt.Errorf("invalid authorization request: the code was not issued to client '%s'", req.Client.ClientId)
+	}
+
 	// Validate redirectUri
 	if ar.Request.RedirectUri != grant.RedirectUri {
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
-- 
2.43.0


From feb4ea71287adc65cab8ec9ce5fe3b9e3f0254d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:26 +0000
Subject: [PATCH 09/46] fix: register device authorization sessions as pending,
 with an expiration

Sessions were stored without status nor expiration: every user code was
reported as expired and the device flow could never complete.
---
 server/services/device/service.go              | 1 +
 server/storage/inmemory/device_code_session.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/server/services/device/service.go b/server/services/device/service.go
index 51f2bff..a896eaa 100644
--- a/server/services/device/service.go
+++ b/server/services/device/service.go
@@ -113,6 +113,7 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.DeviceAuthorization
 		Scope:      req.Scope,
 		Audience:   req.Audience,
 		DeviceCode: deviceCode,
+		Status:     sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING,
 	}
 
 	// Store device code request
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 3f975f3..9cae8e2 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -49,6 +49,9 @@ func DeviceCodeSessions() storage.DeviceCodeSession {
 // -----------------------------------------------------------------------------
 
 func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) (uint64, error) {
+	// Set the session expiration
+	req.ExpiresAt = uint64(time.Now().Add(2 * time.Minute).Unix())
+
 	// Insert in cache
 	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
 	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
-- 
2.43.0


From 74133c445c20bc0a739abd45cb1c0c638700df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:27 +0000
Subject: [PATCH 10/46] fix: validate an in-memory user code at most once

Readers shared the stored session: two concurrent validations both succeeded,
and a session was visible as validated before its subject was stored.
---
 .../storage/inmemory/device_code_session.go   | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 9cae8e2..a26e75c 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -20,16 +20,19 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	sessionv1 "zntr.io/solid/api/oidc/session/v1"
 	"zntr.io/solid/server/storage"
 )
 
 type deviceCodeSessionStorage struct {
+	validateMutex   sync.Mutex
 	userCodeIndex   *cache.Cache
 	deviceCodeIndex *cache.Cache
 }
@@ -69,7 +72,7 @@ func (s *deviceCodeSessionStorage) Delete(ctx context.Context, issuer, code stri
 func (s *deviceCodeSessionStorage) GetByDeviceCode(ctx context.Context, issuer, deviceCode string) (*sessionv1.DeviceCodeSession, error) {
 	// Retrieve from cache
 	if x, found := s.deviceCodeIndex.Get(s.deriveDeviceCode(issuer, deviceCode)); found {
-		req := x.(*sessionv1.DeviceCodeSession)
+		req := proto.Clone(x.(*sessionv1.DeviceCodeSession)).(*sessionv1.DeviceCodeSession)
 		return req, nil
 	}
 
@@ -79,7 +82,7 @@ func (s *deviceCodeSessionStorage) GetByDeviceCode(ctx context.Context, issuer,
 func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, userCode string) (*sessionv1.DeviceCodeSession, error) {
 	// Retrieve from cache
 	if x, found := s.userCodeIndex.Get(s.deriveUserCode(issuer, userCode)); found {
-		req := x.(*sessionv1.DeviceCodeSession)
+		req := proto.Clone(x.(*sessionv1.DeviceCodeSession)).(*sessionv1.DeviceCodeSession)
 		return req, nil
 	}
 
@@ -87,6 +90,18 @@ func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, us
 }
 
 func (s *deviceCodeSessionStorage) Validate(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) error {
+	s.validateMutex.Lock()
+	defer s.validateMutex.Unlock()
+
+	// Only a pending user code can be validated, once
+	current, err := s.GetByUserCode(ctx, req.Issuer, userCode)
+	if err != nil {
+		return err
+	}
+	if current.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {
+		return fmt.Errorf("user code is not pending")
+	}
+
 	// Insert in cache
 	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
 	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
-- 
2.43.0


From 83e73c9edc0af7fe93901dc43bdf216fbf09c36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:27 +0000
Subject: [PATCH 11/46] fix: do not share stored tokens with the callers of the
 in-memory storage

Revoke changed the token object other requests were reading.
---
 server/storage/inmemory/token.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 6f9c93e..05d2525 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -71,7 +71,7 @@ func (s *tokenStorage) Get(ctx context.Context, issuer, id string) (*tokenv1.Tok
 	}
 
 	// No error
-	return client.(*tokenv1.Token), nil
+	return proto.Clone(client.(*tokenv1.Token)).(*tokenv1.Token), nil
 }
 
 func (s *tokenStorage) GetByValue(ctx context.Context, issuer, value string) (*tokenv1.Token, error) {
@@ -82,7 +82,7 @@ func (s *tokenStorage) GetByValue(ctx context.Context, issuer, value string) (*t
 	}
 
 	// No error
-	return client.(*tokenv1.Token), nil
+	return proto.Clone(client.(*tokenv1.Token)).(*tokenv1.Token), nil
 }
 
 func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
-- 
2.43.0


From db96dff575c50acd54d83e015be2a2a9772efbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:28 +0000
Subject: [PATCH 12/46] fix: isolate the token identifiers of in-memory issuers

A token could be read, revoked or deleted by identifier through another issuer.
---
 server/storage/inmemory/token.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 05d2525..035ec9b 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -56,7 +56,7 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 	// Compute token value hash
 	tCopy.Value = s.deriveValue(issuer, tCopy.Value)
 
-	s.idIndex.Store(tCopy.TokenId, tCopy)
+	s.idIndex.Store(s.deriveValue(issuer, tCopy.TokenId), tCopy)
 	s.valueIndex.Store(tCopy.Value, tCopy)
 
 	// No error
@@ -65,7 +65,7 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 
 func (s *tokenStorage) Get(ctx context.Context, issuer, id string) (*tokenv1.Token, error) {
 	// Check is client exists
-	client, ok := s.idIndex.Load(id)
+	client, ok := s.idIndex.Load(s.deriveValue(issuer, id))
 	if !ok {
 		return nil, storage.ErrNotFound
 	}
@@ -92,7 +92,7 @@ func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
 		return err
 	}
 
-	s.idIndex.Delete(t.TokenId)
+	s.idIndex.Delete(s.deriveValue(issuer, t.TokenId))
 	s.valueIndex.Delete(t.Value)
 
 	// No error
@@ -110,7 +110,7 @@ func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
 	t.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
 
 	// Update maps
-	s.idIndex.Store(t.TokenId, t)
+	s.idIndex.Store(s.deriveValue(issuer, t.TokenId), t)
 	s.valueIndex.Store(t.Value, t)
 
 	// No error
-- 
2.43.0


From 2a70e3af22991bb05fe05c7ebd93c5d02bfd9c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:29 +0000
Subject: [PATCH 13/46] fix: serialize writes of the in-memory token storage

A revocation concurrent with a deletion could store the deleted token again.
---
 server/storage/inmemory/token.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 035ec9b..461e114 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -30,6 +30,7 @@ import (
 )
 
 type tokenStorage struct {
+	writeMutex sync.Mutex
 	idIndex    sync.Map
 	valueIndex sync.Map
 }
@@ -45,6 +46,9 @@ func Tokens() storage.Token {
 // -----------------------------------------------------------------------------
 
 func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Token) error {
+	s.writeMutex.Lock()
+	defer s.writeMutex.Unlock()
+
 	// Check parameters
 	if t == nil {
 		return fmt.Errorf("unable to store nil token")
@@ -86,6 +90,9 @@ func (s *tokenStorage) GetByValue(ctx context.Context, issuer, value string) (*t
 }
 
 func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
+	s.writeMutex.Lock()
+	defer s.writeMutex.Unlock()
+
 	// Retrieve token
 	t, err := s.Get(ctx, issuer, id)
 	if err != nil {
@@ -100,6 +107,9 @@ func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
 }
 
 func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
+	s.writeMutex.Lock()
+	defer s.writeMutex.Unlock()
+
 	// Retrieve token
 	t, err := s.Get(ctx, issuer, id)
 	if err != nil {
-- 
2.43.0


From 15646ea99eb2d5f000170ef437eda459c56cf34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:29 +0000
Subject: [PATCH 14/46] fix: separate the issuer from the value in in-memory
 storage keys

Without a separator the pairs (issuer, value) are ambiguous, so an issuer which
extends another one shared entries with it.
---
 server/storage/inmemory/authorization_code_session.go | 1 +
 server/storage/inmemory/authorization_request.go      | 1 +
 server/storage/inmemory/device_code_session.go        | 2 ++
 server/storage/inmemory/token.go                      | 1 +
 4 files changed, 5 insertions(+)

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index e634476..df6e8ad 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -91,6 +91,7 @@ func (s *sessionStorage) deriveKey(issuer, code string) string {
 
 	h.Write([]byte("solid:authorization-code-sessions:v1"))
 	h.Write([]byte(issuer))
+	h.Write([]byte{0})
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index 6e47a70..18f08e3 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -91,6 +91,7 @@ func (s *authorizationRequestStorage) deriveKey(issuer, requestURI string) strin
 
 	h.Write([]byte("solid:authorization-requests:v1"))
 	h.Write([]byte(issuer))
+	h.Write([]byte{0})
 	h.Write([]byte(requestURI))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index a26e75c..51255da 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -121,6 +121,7 @@ func (s *deviceCodeSessionStorage) deriveUserCode(issuer, code string) string {
 
 	h.Write([]byte("solid:device-authorization-user-code:v1"))
 	h.Write([]byte(issuer))
+	h.Write([]byte{0})
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
@@ -135,6 +136,7 @@ func (s *deviceCodeSessionStorage) deriveDeviceCode(issuer, code string) string
 
 	h.Write([]byte("solid:device-authorization-device-code:v1"))
 	h.Write([]byte(issuer))
+	h.Write([]byte{0})
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 461e114..a5e993c 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -138,6 +138,7 @@ func (s *tokenStorage) deriveValue(issuer, value string) string {
 
 	h.Write([]byte("solid:token:v1"))
 	h.Write([]byte(issuer))
+	h.Write([]byte{0})
 	h.Write([]byte(value))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
-- 
2.43.0


From 2d52c0adcd17e97e1528253a6abb53c622c7f476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:30 +0000
Subject: [PATCH 15/46] fix: protect the in-memory client map against
 concurrent registrations

---
 server/storage/inmemory/client.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/storage/inmemory/client.go b/server/storage/inmemory/client.go
index de66df2..1102faf 100644
--- a/server/storage/inmemory/client.go
+++ b/server/storage/inmemory/client.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"strings"
+	"sync"
 
 	"github.com/dchest/uniuri"
 
@@ -29,6 +30,7 @@ import (
 )
 
 type clientStorage struct {
+	mutex   sync.RWMutex
 	backend map[string]*clientv1.Client
 }
 
@@ -172,6 +174,9 @@ func Clients() storage.Client {
 // -----------------------------------------------------------------------------
 
 func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+
 	// Check is client exists
 	client, ok := s.backend[id]
 	if !ok {
@@ -183,6 +188,9 @@ func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, e
 }
 
 func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.Client, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+
 	// Iterate over bakend map
 	for _, c := range s.backend {
 		if strings.EqualFold(c.ClientName, name) {
@@ -197,6 +205,9 @@ func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.C
 // -----------------------------------------------------------------------------
 
 func (s *clientStorage) Register(ctx context.Context, c *clientv1.Client) (string, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
 	// Assign client id
 	c.ClientId = uniuri.NewLen(16)
 
-- 
2.43.0


From e695c48cd7679b95352391411804cda54d2f856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:34 +0000
Subject: [PATCH 16/46] fix: StringArray.Remove removes every occurrence

Only the first one was removed: a scope listing offline_access twice kept it
without the consent prompt.
---
 sdk/types/string_array.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdk/types/string_array.go b/sdk/types/string_array.go
index fa12e66..740bcaa 100644
--- a/sdk/types/string_array.go
+++ b/sdk/types/string_array.go
@@ -56,6 +56,9 @@ func (s *StringArray) Remove(item string) {
 		return
 	}
 	*s = append((*s)[:idx], (*s)[idx+1:]...)
+
+	// Remove the other occurrences
+	s.Remove(item)
 }
 
 // HasOneOf returns true when one of provided items is found in array.
-- 
2.43.0


From ffeebf091009711329e0176fb99d79a6882ff4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:36 +0000
Subject: [PATCH 17/46] fix: match redirect_uri exactly

The registered redirect_uri comparison ignored the case, including of the path.
---
 server/services/authorization/service.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index e9da651..a62edd6 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -21,6 +21,7 @@ import (
 	"context"
 	"fmt"
 	"net/url"
+	"slices"
 	"strings"
 
 	corev1 "zntr.io/solid/api/oidc/core/v1"
@@ -361,6 +362,11 @@ func (s *service) validateClientCapabilities(ctx context.Context, req *flowv1.Au
 		return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf("client doesn't support `%s` as redirect_uri type", req.RedirectUri)
 	}
 
+	// https://www.rfc-editor.org/rfc/rfc6749#section-3.1.2.3 (simple string comparison)
+	if !slices.Contains(client.RedirectUris, req.RedirectUri) {
+		return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf("client doesn't support `%s` as redirect_uri type", req.RedirectUri)
+	}
+
 	// Validate client response_modes
 	if req.ResponseMode != nil {
 		if !types.StringArray(client.ResponseModes).Contains(*req.ResponseMode) {
-- 
2.43.0


From 0756a7bbcfb4aea8bc5fb5400ec80af2fa1fd793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:37 +0000
Subject: [PATCH 18/46] fix: handle audience lookup errors of the token
 exchange

The condition was inverted: a storage error dereferenced a nil resource, and an
unknown audience was reported without a protocol error.
---
 server/services/token/grant_token_exchange.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 97abbd8..26891e5 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -177,7 +177,8 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Add optional meta
 	if req.Audience != nil {
 		aud, err := s.resources.GetByURI(ctx, *req.Audience)
-		if err != nil && errors.Is(err, storage.ErrNotFound) {
+		if err != nil && !errors.Is(err, storage.ErrNotFound) {
+			res.Error = rfcerrors.ServerError().Build()
 			return fmt.Errorf("unable to validate audience: %w", err)
 		}
 		if errors.Is(err, storage.ErrNotFound) {
-- 
2.43.0


From abdad0ed61e88a1a5b33dea12b3d6a8b2b896807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:39 +0000
Subject: [PATCH 19/46] fix: report token exchange server errors to the client

---
 server/services/token/grant_token_exchange.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 26891e5..f316b5d 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -193,16 +193,19 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Generate an access token
 	at.Value, err = s.accessTokenGen.Generate(ctx, at)
 	if err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to generate an accessToken: %w", err)
 	}
 
 	// Check generator value
 	if at.Value == "" {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("accessTokenGenerator generated an empty value")
 	}
 
 	// Store the token spec
 	if err := s.tokens.Create(ctx, req.Issuer, at); err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to register access token spec in token storage: %w", err)
 	}
 
-- 
2.43.0


From 5eb8dda9b0d35413ad07da7dfdd7a355eeb595a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:41 +0000
Subject: [PATCH 20/46] fix: a token exchange can not add scopes to the subject
 token

---
 server/services/token/grant_token_exchange.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index f316b5d..2f392f6 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -22,6 +22,8 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"slices"
+	"strings"
 	"time"
 
 	"github.com/dchest/uniuri"
@@ -157,6 +159,15 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 		scope = *req.Scope
 	}
 
+	// The exchanged token can't have more scopes than the subject token
+	subjectScopes := strings.Fields(st.Metadata.Scope)
+	for _, requested := range strings.Fields(scope) {
+		if !slices.Contains(subjectScopes, requested) {
+			res.Error = rfcerrors.InvalidScope().Build()
+			return fmt.Errorf("scope '%s' is not granted by the subject token", requested)
+		}
+	}
+
 	// Create access token spec
 	now := timeFunc()
 	at := &tokenv1.Token{
-- 
2.43.0


From 7eb1da5fd4cfeeb14d9e11ff0208fa0c8dba454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:43 +0000
Subject: [PATCH 21/46] fix: a client can only revoke its own tokens

RFC 7009 section 2.1.
---
 server/services/token/revoke.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/services/token/revoke.go b/server/services/token/revoke.go
index 8ec4a7c..f444f84 100644
--- a/server/services/token/revoke.go
+++ b/server/services/token/revoke.go
@@ -71,6 +71,13 @@ func (s *service) Revoke(ctx context.Context, req *tokenv1.RevokeRequest) (*toke
 		return res, fmt.Errorf("unable to retrieve token '%s': %w", req.Token, err)
 	}
 
+	// Only the client which owns the token can revoke it
+	// https://www.rfc-editor.org/rfc/rfc7009#section-2.1
+	if t.Metadata != nil && t.Metadata.ClientId != req.Client.ClientId {
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("token was not issued to client '%s'", req.Client.ClientId)
+	}
+
 	// Update token status
 	if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil {
 		return res, fmt.Errorf("unable to revoke token '%s': %w", req.Token, err)
-- 
2.43.0


From d8ebf4f6e468c57f5fbaf3e6e3716046a8d7e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:45 +0000
Subject: [PATCH 22/46] fix: keep the requested audience in tokens of the
 device flow

---
 server/services/token/grant_device_code.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/services/token/grant_device_code.go b/server/services/token/grant_device_code.go
index 5bff691..4c2c429 100644
--- a/server/services/token/grant_device_code.go
+++ b/server/services/token/grant_device_code.go
@@ -140,6 +140,10 @@ func (s *service) deviceCode(ctx context.Context, client *clientv1.Client, req *
 		tm.Scope = *session.Scope
 	}
 
+	if session.Audience != nil {
+		tm.Audience = *session.Audience
+	}
+
 	// Generate access token
 	at, err := s.generateAccessToken(ctx, client, tm, req.TokenConfirmation)
 	if err != nil {
-- 
2.43.0


From 5c595758b4cd09dedc93dccb7e4ab470e44a8f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:46 +0000
Subject: [PATCH 23/46] fix: compare the PKCE challenge with the hash of the
 verifier

Validate compared both values directly: a generated pair never validated, and a
challenge validated itself.
---
 sdk/pkce/verifier.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sdk/pkce/verifier.go b/sdk/pkce/verifier.go
index b5d7857..f3c891d 100644
--- a/sdk/pkce/verifier.go
+++ b/sdk/pkce/verifier.go
@@ -65,13 +65,11 @@ func Validate(challenge, verifier string) (bool, error) {
 		return false, fmt.Errorf("invalid challenge format: %w", err)
 	}
 
-	verRaw, err := base64.RawURLEncoding.DecodeString(verifier)
-	if err != nil {
-		return false, fmt.Errorf("invalid verifier format: %w", err)
-	}
+	// Compute the expected challenge
+	hash := sha256.Sum256([]byte(verifier))
 
 	// Compare values
-	same := types.SecureCompare(chRaw, verRaw)
+	same := types.SecureCompare(chRaw, hash[:])
 
 	// No error
 	return same, nil
-- 
2.43.0


From 9bcca90acd1eda31de5c17e3bca42fa982dd79b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:47 +0000
Subject: [PATCH 24/46] fix: set the +jwt suffix of the JWT typ header

DPoP and JARM verifiers expect dpop+jwt and jarm+jwt, the signers wrote dpop and
jarm: nothing they produced could be verified.
---
 sdk/token/jwt/signer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/token/jwt/signer.go b/sdk/token/jwt/signer.go
index 822e031..7447549 100644
--- a/sdk/token/jwt/signer.go
+++ b/sdk/token/jwt/signer.go
@@ -59,7 +59,7 @@ func (ds *defaultSigner) Serialize(ctx context.Context, claims any) (string, err
 		return "", fmt.Errorf("key provider returned a unidentifiable key")
 	}
 	// Prepare JWT header
-	options := (&jose.SignerOptions{}).WithType(jose.ContentType(ds.tokenType))
+	options := (&jose.SignerOptions{}).WithType(jose.ContentType(ds.tokenType + "+jwt"))
 	options = options.WithHeader(jose.HeaderKey("kid"), key.KeyID)
 	options.EmbedJWK = ds.embedJWK
 
-- 
2.43.0


From ed169f7aae760b42567634aa0c35d7d96378fa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:23 +0000
Subject: [PATCH 25/46] fix: do not panic on a token without embedded key

---
 sdk/token/jwt/embedded_verifier.go | 3 +++
 sdk/token/jwt/token_adapter.go     | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/sdk/token/jwt/embedded_verifier.go b/sdk/token/jwt/embedded_verifier.go
index b0e88dc..97245d2 100644
--- a/sdk/token/jwt/embedded_verifier.go
+++ b/sdk/token/jwt/embedded_verifier.go
@@ -94,6 +94,9 @@ func (v *embeddedKeyVerifier) Claims(ctx context.Context, raw string, claims any
 
 	// Get embedded key.
 	embeddedJwk := t.Headers[0].JSONWebKey
+	if embeddedJwk == nil {
+		return errors.New("token has no embedded public key")
+	}
 
 	// Try to verify with current key
 	if err := t.Claims(embeddedJwk, claims); err != nil {
diff --git a/sdk/token/jwt/token_adapter.go b/sdk/token/jwt/token_adapter.go
index 962f65f..d56cdb3 100644
--- a/sdk/token/jwt/token_adapter.go
+++ b/sdk/token/jwt/token_adapter.go
@@ -60,6 +60,10 @@ func (tw *tokenAdapter) PublicKeyThumbPrint() (string, error) {
 		return "", fmt.Errorf("unable to retrieve embededded jwk from header")
 	}
 
+	if tw.token.Headers[0].JSONWebKey == nil {
+		return "", fmt.Errorf("token has no embedded public key")
+	}
+
 	// Generate thumbprint
 	h, err := tw.token.Headers[0].JSONWebKey.Thumbprint(crypto.SHA256)
 	if err != nil {
-- 
2.43.0


From 3ae4c8eb8588b2aeab5e2d25b71af27fe74ee710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:24 +0000
Subject: [PATCH 26/46] fix: do not panic on a nil client attestation request

---
 server/clientauthentication/client_attestation.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index be1662a..3dc3ddd 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -58,6 +58,12 @@ type clientAttestationPOPClaims struct {
 func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req *clientv1.AuthenticateRequest) (*clientv1.AuthenticateResponse, error) {
 	res := &clientv1.AuthenticateResponse{}
 
+	// Check arguments
+	if req == nil {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("unable to process nil request")
+	}
+
 	// Validate required fields for this authentication method
 	if req.ClientAssertionType == nil {
 		res.Error = rfcerrors.InvalidRequest().Build()
-- 
2.43.0


From 0f53fe86e9b6107eb504d10cd5c8e1333ae9da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:25 +0000
Subject: [PATCH 27/46] fix: do not panic on a client attestation without
 confirmation key

---
 server/clientauthentication/client_attestation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index 3dc3ddd..b17e9cc 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -154,7 +154,7 @@ func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.
 	}
 
 	// Validate claims
-	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil {
+	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil || claims.Confirmation.JWK == nil {
 		return nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-- 
2.43.0


From 8b893953090c9c35c36a07c9ebadc931d4278c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:26 +0000
Subject: [PATCH 28/46] fix: report an invalid attestation proof of possession
 to the client

These rejections returned a nil response, which callers dereference.
---
 server/clientauthentication/client_attestation.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index b17e9cc..8b56f15 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -107,18 +107,21 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	var claims clientAttestationPOPClaims
 	if err := rawPoP.Claims(clientPublicKey, &claims); err != nil {
 		res.Error = rfcerrors.UnauthorizedClient().Build()
-		return nil, fmt.Errorf("client attestation PoP is invalid: %w", err)
+		return res, fmt.Errorf("client attestation PoP is invalid: %w", err)
 	}
 
 	// Validate claims
 	if claims.Issuer == "" || claims.Expires == 0 || claims.JTI == "" || claims.Audience == "" {
-		return nil, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("expired token")
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("expired token")
 	}
 	if claims.NotBefore > uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("not useable token")
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("not useable token")
 	}
 
 	// Check client in storage
-- 
2.43.0


From 80aced5c72bbd2eeb1de387bbb1e8db8028e8346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:27 +0000
Subject: [PATCH 29/46] fix: the attestation proof must be issued by the
 attested client

The attested subject was never compared with the issuer of the proof: any
attested client could authenticate as any other client.
---
 .../client_attestation.go                     | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index 8b56f15..b94423c 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -90,7 +90,7 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	}
 
 	// Decode assertions without validation first
-	clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])
+	clientPublicKey, subject, err := p.validateClientAttestation(ctx, assertions[0])
 	if err != nil {
 		res.Error = rfcerrors.UnauthorizedClient().Build()
 		return res, errors.New("invalid client attestation")
@@ -124,6 +124,12 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 		return res, fmt.Errorf("not useable token")
 	}
 
+	// The proof must be issued by the attested client
+	if claims.Issuer != subject {
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("client attestation is not about client '%s'", claims.Issuer)
+	}
+
 	// Check client in storage
 	client, err := p.clients.Get(ctx, claims.Issuer)
 	if err != nil {
@@ -143,55 +149,55 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 
 // -----------------------------------------------------------------------------
 
-func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (*jose.JSONWebKey, error) {
+func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (*jose.JSONWebKey, string, error) {
 	// Parse attestation without cryptogrpahic verification first
 	rawAttestation, err := jose.ParseSigned(clientAttestation, p.supportedAlgorithms)
 	if err != nil {
-		return nil, fmt.Errorf("client attestation is syntaxically invalid: %w", err)
+		return nil, "", fmt.Errorf("client attestation is syntaxically invalid: %w", err)
 	}
 
 	// Retrieve payload claims
 	var claims clientAttestationClaims
 	if errDecode := json.Unmarshal(rawAttestation.UnsafePayloadWithoutVerification(), &claims); errDecode != nil {
-		return nil, fmt.Errorf("unable to decode payload claims: %w", errDecode)
+		return nil, "", fmt.Errorf("unable to decode payload claims: %w", errDecode)
 	}
 
 	// Validate claims
 	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil || claims.Confirmation.JWK == nil {
-		return nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
+		return nil, "", fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("expired token")
+		return nil, "", fmt.Errorf("expired token")
 	}
 	if claims.NotBefore > uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("not useable token")
+		return nil, "", fmt.Errorf("not useable token")
 	}
 
 	// Check client in storage
 	client, err := p.clients.Get(ctx, claims.Issuer)
 	if err != nil {
 		if err != storage.ErrNotFound {
-			return nil, fmt.Errorf("error during client retrieval: %w", err)
+			return nil, "", fmt.Errorf("error during client retrieval: %w", err)
 		}
-		return nil, fmt.Errorf("client not found")
+		return nil, "", fmt.Errorf("client not found")
 	}
 
 	// Retrieve JWK associated to the client
 	if len(client.Jwks) == 0 {
-		return nil, fmt.Errorf("client jwks is nil")
+		return nil, "", fmt.Errorf("client jwks is nil")
 	}
 
 	// Parse JWKS
 	var jwks jose.JSONWebKeySet
 	if err := json.Unmarshal(client.Jwks, &jwks); err != nil {
-		return nil, fmt.Errorf("client jwks is invalid: %w", err)
+		return nil, "", fmt.Errorf("client jwks is invalid: %w", err)
 	}
 
 	// Try to validate assertion with one of keys
 	if err := jwk.ValidateSignature(&jwks, rawAttestation); err != nil {
-		return nil, fmt.Errorf("client assertion is invalid: %w", err)
+		return nil, "", fmt.Errorf("client assertion is invalid: %w", err)
 	}
 
 	// Extract client public key
-	return claims.Confirmation.JWK, nil
+	return claims.Confirmation.JWK, claims.Subject, nil
 }
-- 
2.43.0


From f03132293a98215d4c446f46ef5ef509e4de6f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:28 +0000
Subject: [PATCH 30/46] fix: do not panic on verifiable tokens encoding too
 large values

---
 sdk/token/verifiable/helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/token/verifiable/helpers.go b/sdk/token/verifiable/helpers.go
index bbe431d..378b973 100644
--- a/sdk/token/verifiable/helpers.go
+++ b/sdk/token/verifiable/helpers.go
@@ -31,5 +31,9 @@ func parsePaddedBase62(s string, length int) ([]byte, error) {
 		return []byte{}, fmt.Errorf("cannot parse base62: %q", s)
 	}
 
+	if i.BitLen() > length*8 {
+		return []byte{}, fmt.Errorf("base62 value is too large: %q", s)
+	}
+
 	return i.FillBytes(out), nil
 }
-- 
2.43.0


From 8ba5635b1a310c1917004c61db81f6abd328a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:31 +0000
Subject: [PATCH 31/46] fix: require the jti of DPoP proofs

---
 sdk/dpop/verifier.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index aefb950..a8d035c 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -212,6 +212,11 @@ func (v *defaultVerifier) validateProofClaims(htm, htu string, claims *proofClai
 		return "", fmt.Errorf("claims must not be nil")
 	}
 
+	// https://www.rfc-editor.org/rfc/rfc9449#section-4.2
+	if claims.JTI == "" {
+		return "", fmt.Errorf("invalid proof: jti is mandatory")
+	}
+
 	// Check http parameters
 	if claims.HTTPMethod != htm {
 		return "", fmt.Errorf("invalid proof: http method don't match, got:'%s', expected: '%s'", htm, claims.HTTPMethod)
-- 
2.43.0


From 8b38da3e2930794797e55ac2f08830ba839cb78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:32 +0000
Subject: [PATCH 32/46] fix: check the DPoP confirmation without token value

The expected confirmation was silently ignored when the token value was not
given.
---
 sdk/dpop/verifier.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index a8d035c..19e93fe 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -138,11 +138,12 @@ func (v *defaultVerifier) Verify(ctx context.Context, htm, htu, proof string, op
 			return "", errors.New("invalid proof / token association, token mismatch")
 		}
 
-		// Check access token confirmation
-		if dopts.tokenConfirmation != nil {
-			if !types.SecureCompareString(thumb, *dopts.tokenConfirmation) {
-				return "", errors.New("invalid proof / token association, proof mismatch")
-			}
+	}
+
+	// Check access token confirmation
+	if dopts.tokenConfirmation != nil {
+		if !types.SecureCompareString(thumb, *dopts.tokenConfirmation) {
+			return "", errors.New("invalid proof / token association, proof mismatch")
 		}
 	}
 
-- 
2.43.0


From f687f903ab5993a2b95240535dddc285c0b466b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:33 +0000
Subject: [PATCH 33/46] fix: prove and verify the same DPoP htu value

The prover dropped the query and the path escapes, the verifier kept them: proofs
for these URLs were always rejected (RFC 9449 section 4.3).
---
 sdk/dpop/prover.go   | 2 +-
 sdk/dpop/verifier.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdk/dpop/prover.go b/sdk/dpop/prover.go
index b3d0d01..c219bf4 100644
--- a/sdk/dpop/prover.go
+++ b/sdk/dpop/prover.go
@@ -86,7 +86,7 @@ func (p *defaultProver) Prove(htm, htu string, opts ...Option) (string, error) {
 	claims := &proofClaims{
 		JTI:        uniuri.NewLen(JTICodeLength),
 		HTTPMethod: htm,
-		HTTPURL:    fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.Path),
+		HTTPURL:    fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.EscapedPath()),
 		IssuedAt:   uint64(time.Now().UTC().Unix()),
 	}
 
diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index 19e93fe..3ab127a 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -82,6 +82,9 @@ func (v *defaultVerifier) Verify(ctx context.Context, htm, htu, proof string, op
 		return "", fmt.Errorf("invalid URL syntax for proof verification '%s': %w", htu, err)
 	}
 
+	// Ignore query and fragment
+	u.RawQuery, u.ForceQuery, u.Fragment, u.RawFragment = "", false, "", ""
+
 	// Validate method
 	switch strings.ToUpper(htm) {
 	case http.MethodConnect, http.MethodDelete, http.MethodGet, http.MethodHead, http.MethodOptions:
-- 
2.43.0


From dac8ee60211edd3bab9d6ece9cb18d0cba035dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:47 +0000
Subject: [PATCH 34/46] fix: accept only the canonical padding of verifiable
 tokens

A leading zero made another valid spelling of an issued token.
---
 sdk/token/verifiable/uuid.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/token/verifiable/uuid.go b/sdk/token/verifiable/uuid.go
index 50dce15..86c97ef 100644
--- a/sdk/token/verifiable/uuid.go
+++ b/sdk/token/verifiable/uuid.go
@@ -164,6 +164,11 @@ func (vu *uuidGenerator) Extract(in string) ([]byte, error) {
 		return nil, errors.New("invalid token syntax")
 	}
 
+	// Accept only the canonical padding
+	if len(parts[1]) > 59 && strings.HasPrefix(parts[1], "0") {
+		return nil, errors.New("invalid token syntax")
+	}
+
 	// Decode Nonce || Signature
 	sig, err := parsePaddedBase62(parts[1], 44)
 	if err != nil {
-- 
2.43.0


From 160e338a699f7cef573d588e6ec765c8007f6c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:48 +0000
Subject: [PATCH 35/46] fix: do not panic on a CWT signer without key provider

---
 sdk/token/cwt/signer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/token/cwt/signer.go b/sdk/token/cwt/signer.go
index 5ed4a10..bebc375 100644
--- a/sdk/token/cwt/signer.go
+++ b/sdk/token/cwt/signer.go
@@ -55,6 +55,10 @@ func (ds *defaultSigner) Serialize(ctx context.Context, claims any) (string, err
 		return "", errors.New("unable to sign nil claim object")
 	}
 
+	if ds.keyProvider == nil {
+		return "", errors.New("unable to use nil keyProvider")
+	}
+
 	// Retrieve signing key
 	key, err := ds.keyProvider(ctx)
 	if err != nil {
-- 
2.43.0


From 430788fed0a62893450167d7622efb1b2dcd6011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:49 +0000
Subject: [PATCH 36/46] fix: reject a code exchange without openid scope

It was reported as a success without any token, which callers dereference.
---
 server/services/token/grant_authorization_code.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index bd3eaeb..bafa985 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -192,6 +192,9 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 
 		// Assign response
 		res.AccessToken = at
+	} else {
+		res.Error = rfcerrors.InvalidScope().State(ar.Request.State).Build()
+		return res, fmt.Errorf("invalid authorization request: openid scope is mandatory")
 	}
 
 	// No error
-- 
2.43.0


From fde41dde46204fc34d34cfc962b02f3c0a22612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:19 +0000
Subject: [PATCH 37/46] fix: an exchanged token does not outlive its subject
 token

Exchanging the exchanged token again extended the access forever.
---
 server/services/token/grant_token_exchange.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 2f392f6..dbc11a8 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -185,6 +185,11 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 		Status:       tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
 	}
 
+	// The exchanged token can't outlive the subject token
+	if at.Metadata.ExpiresAt > st.Metadata.ExpiresAt {
+		at.Metadata.ExpiresAt = st.Metadata.ExpiresAt
+	}
+
 	// Add optional meta
 	if req.Audience != nil {
 		aud, err := s.resources.GetByURI(ctx, *req.Audience)
-- 
2.43.0


From d23fd6a022a4a0d7e98b3dab62e5c45de763a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:06 +0000
Subject: [PATCH 38/46] fix: rotate an in-memory refresh token at most once

---
 server/services/token/revoke.go  | 5 +++++
 server/storage/inmemory/token.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/server/services/token/revoke.go b/server/services/token/revoke.go
index f444f84..d2e024e 100644
--- a/server/services/token/revoke.go
+++ b/server/services/token/revoke.go
@@ -78,6 +78,11 @@ func (s *service) Revoke(ctx context.Context, req *tokenv1.RevokeRequest) (*toke
 		return res, fmt.Errorf("token was not issued to client '%s'", req.Client.ClientId)
 	}
 
+	// Nothing to do when the token is already revoked
+	if t.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED {
+		return res, nil
+	}
+
 	// Update token status
 	if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil {
 		return res, fmt.Errorf("unable to revoke token '%s': %w", req.Token, err)
diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index a5e993c..1b7597d 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -116,6 +116,11 @@ func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
 		return err
 	}
 
+	// Only one caller can revoke the token
+	if t.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED {
+		return fmt.Errorf("token is already revoked")
+	}
+
 	// Set as revoked
 	t.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
 
-- 
2.43.0


From b975db464f7665dcd00e699853499b662dd9c8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:24 +0000
Subject: [PATCH 39/46] fix: keep the path encoding of the DPoP request URL

---
 sdk/dpop/url.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/dpop/url.go b/sdk/dpop/url.go
index db340c6..9dabdd0 100644
--- a/sdk/dpop/url.go
+++ b/sdk/dpop/url.go
@@ -34,5 +34,5 @@ func CleanURL(r *http.Request) string {
 	}
 
 	// Assemble response
-	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.Path)
+	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.EscapedPath())
 }
-- 
2.43.0


From 1b391d43222233960245c6098c852bc075c594cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:25 +0000
Subject: [PATCH 40/46] fix: release the lock of LockedRand when a call panics

---
 sdk/randomness/locked_rand.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/randomness/locked_rand.go b/sdk/randomness/locked_rand.go
index 7c313c1..32a87e0 100644
--- a/sdk/randomness/locked_rand.go
+++ b/sdk/randomness/locked_rand.go
@@ -72,8 +72,8 @@ func (lr *LockedRand) Int() (n int) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int63n(n int64) (r int64) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int63n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -81,8 +81,8 @@ func (lr *LockedRand) Int63n(n int64) (r int64) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int31n(n int32) (r int32) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int31n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -90,8 +90,8 @@ func (lr *LockedRand) Int31n(n int32) (r int32) {
 // It panics if n <= 0.
 func (lr *LockedRand) Intn(n int) (r int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Intn(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -114,8 +114,8 @@ func (lr *LockedRand) Float32() (n float32) {
 // Perm returns, as a slice of n ints, a pseudo-random permutation of the integers [0,n).
 func (lr *LockedRand) Perm(n int) (r []int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Perm(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -152,8 +152,8 @@ func (lr *LockedRand) ExpFloat64() (n float64) {
 // swap swaps the elements with indexes i and j.
 func (lr *LockedRand) Shuffle(n int, swap func(i, j int)) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	lr.r.Shuffle(n, swap)
-	lr.lk.Unlock()
 }
 
 // Read generates len(p) random bytes and writes them into p. It
-- 
2.43.0


From 529d9892d37489afe21830e3878e4240071bc0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:25 +0000
Subject: [PATCH 41/46] fix: do not panic on empty server metadata or key set

---
 client/http.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/http.go b/client/http.go
index a67df99..6799c03 100644
--- a/client/http.go
+++ b/client/http.go
@@ -66,6 +66,9 @@ func HTTP(ctx context.Context, issuer string, opts *Options) (Client, error) {
 	if err := json.NewDecoder(response.Body).Decode(&c.serverMetadata); err != nil {
 		return nil, fmt.Errorf("unable to decode server metadata: %w", err)
 	}
+	if c.serverMetadata == nil {
+		return nil, fmt.Errorf("server metadata is empty")
+	}
 
 	// Retrieve public keys
 	if _, _, err := c.PublicKeys(ctx); err != nil {
@@ -469,7 +472,7 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	}
 
 	// Check keys
-	if len(jwks.Keys) == 0 {
+	if jwks.JSONWebKeySet == nil || len(jwks.Keys) == 0 {
 		return nil, 0, fmt.Errorf("remote jwks doesn't contain keys")
 	}
 
-- 
2.43.0


From dde396efdc2646212c28ca159ef4b1d8d1f1c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:25 +0000
Subject: [PATCH 42/46] fix: synchronize the key set cache of the HTTP client

---
 client/http.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client/http.go b/client/http.go
index 6799c03..1e0552c 100644
--- a/client/http.go
+++ b/client/http.go
@@ -25,6 +25,7 @@ import (
 	"net/http"
 	"net/url"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/dchest/uniuri"
@@ -85,6 +86,7 @@ type httpClient struct {
 	issuer         string
 	opts           *Options
 	httpClient     *http.Client
+	jwksMutex      sync.Mutex
 	jwks           *jose.JSONWebKeySet
 	jwksExpiration uint64
 	serverMetadata *discoveryv1.ServerMetadata
@@ -431,6 +433,10 @@ func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*
 }
 
 func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint64, error) {
+	// The cache is shared by concurrent callers
+	c.jwksMutex.Lock()
+	defer c.jwksMutex.Unlock()
+
 	// Check if keys are not cached and not expired
 	if c.jwks != nil && c.jwksExpiration > uint64(time.Now().Unix()) {
 		// Return cached public keys
@@ -454,6 +460,8 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	if err != nil {
 		return nil, 0, fmt.Errorf("unable to retrieve jwks: %w", err)
 	}
+	defer response.Body.Close()
+
 	if response.StatusCode != http.StatusOK {
 		var err corev1.Error
 
-- 
2.43.0


From e32c1310c8f4f8076f2d93ae3e573057c67ecccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:41 +0000
Subject: [PATCH 43/46] fix: read the RFC 7662 claims of introspection
 responses

---
 client/claims.go | 18 +++++++++++++++---
 client/http.go   | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/client/claims.go b/client/claims.go
index f00bd7d..206952a 100644
--- a/client/claims.go
+++ b/client/claims.go
@@ -19,6 +19,7 @@ package client
 
 import (
 	"github.com/go-jose/go-jose/v4"
+	"github.com/go-jose/go-jose/v4/jwt"
 
 	tokenv1 "zntr.io/solid/api/oidc/token/v1"
 )
@@ -60,8 +61,19 @@ type jsonJWKSResponse struct {
 	Expires             uint64 `json:"exp"`
 }
 
+// https://www.rfc-editor.org/rfc/rfc7662#section-2.2
 type jsonTokenIntrospectionResponse struct {
-	*tokenv1.TokenMeta `json:",inline"`
-	Active             bool                       `json:"active"`
-	Confirmation       *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
+	Active       bool                       `json:"active"`
+	Issuer       string                     `json:"iss,omitempty"`
+	Subject      string                     `json:"sub,omitempty"`
+	Audience     jwt.Audience               `json:"aud,omitempty"`
+	IssuedAt     uint64                     `json:"iat,omitempty"`
+	NotBefore    uint64                     `json:"nbf,omitempty"`
+	ExpiresAt    uint64                     `json:"exp,omitempty"`
+	JTI          string                     `json:"jti,omitempty"`
+	ClientID     string                     `json:"client_id,omitempty"`
+	Scope        string                     `json:"scope,omitempty"`
+	ACR          *string                    `json:"acr,omitempty"`
+	AuthTime     *uint64                    `json:"auth_time,omitempty"`
+	Confirmation *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
 }
diff --git a/client/http.go b/client/http.go
index 1e0552c..74ab03b 100644
--- a/client/http.go
+++ b/client/http.go
@@ -424,9 +424,21 @@ func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*
 
 	// Return token info
 	return &tokenv1.Token{
-		Issuer:       c.issuer,
-		Status:       tokenStatus,
-		Metadata:     t.TokenMeta,
+		Issuer:  c.issuer,
+		TokenId: t.JTI,
+		Status:  tokenStatus,
+		Metadata: &tokenv1.TokenMeta{
+			Issuer:    t.Issuer,
+			Subject:   t.Subject,
+			IssuedAt:  t.IssuedAt,
+			NotBefore: t.NotBefore,
+			ExpiresAt: t.ExpiresAt,
+			ClientId:  t.ClientID,
+			Scope:     t.Scope,
+			Audience:  strings.Join(t.Audience, " "),
+			Acr:       t.ACR,
+			AuthTime:  t.AuthTime,
+		},
 		Confirmation: t.Confirmation,
 		Value:        token,
 	}, nil
-- 
2.43.0


From bc0e2824f76a49c5b5d180668bc6c63c28345c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:20 +0000
Subject: [PATCH 44/46] fix: do not panic on a JWT verifier without key set

---
 sdk/token/jwt/verifier.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sdk/token/jwt/verifier.go b/sdk/token/jwt/verifier.go
index f2d1e3c..07a26ff 100644
--- a/sdk/token/jwt/verifier.go
+++ b/sdk/token/jwt/verifier.go
@@ -81,11 +81,19 @@ func (v *defaultVerifier) Claims(ctx context.Context, raw string, claims any) er
 		return fmt.Errorf("unable to parse signed token: %w", err)
 	}
 
+	// Check key set provider
+	if v.keySetProvider == nil {
+		return errors.New("unable to use nil keySetProvider")
+	}
+
 	// Retrieve KeySet
 	jwks, err := v.keySetProvider(ctx)
 	if err != nil {
 		return fmt.Errorf("unable to retrieve KeySet: %w", err)
 	}
+	if jwks == nil {
+		return errors.New("key set provider returned a nil KeySet")
+	}
 
 	// Set all keys by default
 	keys := jwks.Keys
-- 
2.43.0


From 20996f007240097a998e2bf82ad439ee1d91eaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:28 +0000
Subject: [PATCH 45/46] fix: a deleted in-memory user code is not restored by a
 concurrent validation

---
 server/storage/inmemory/device_code_session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 51255da..793af30 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -64,6 +64,9 @@ func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCod
 }
 
 func (s *deviceCodeSessionStorage) Delete(ctx context.Context, issuer, code string) error {
+	s.validateMutex.Lock()
+	defer s.validateMutex.Unlock()
+
 	s.userCodeIndex.Delete(s.deriveUserCode(issuer, code))
 	// No error
 	return nil
-- 
2.43.0


From 38bef307e222bbceb22933a0b01a757715af38e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 46/46] fix: a profile is not altered by edits of the arrays it
 returned

---
 server/profile/client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/profile/client.go b/server/profile/client.go
index 4ee0111..1b8a9bb 100644
--- a/server/profile/client.go
+++ b/server/profile/client.go
@@ -27,17 +27,17 @@ type defaultClientProfile struct {
 }
 
 func (c *defaultClientProfile) GrantTypesSupported() types.StringArray {
-	return types.StringArray(c.grantTypesSupported)
+	return append(types.StringArray(nil), c.grantTypesSupported...)
 }
 
 func (c *defaultClientProfile) TokenEndpointAuthMethodsSupported() types.StringArray {
-	return types.StringArray(c.tokenEndpointAuthMethodsSupported)
+	return append(types.StringArray(nil), c.tokenEndpointAuthMethodsSupported...)
 }
 
 func (c *defaultClientProfile) ResponseTypesSupported() types.StringArray {
-	return types.StringArray(c.responseTypesSupported)
+	return append(types.StringArray(nil), c.responseTypesSupported...)
 }
 
 func (c *defaultClientProfile) DefaultScopes() types.StringArray {
-	return types.StringArray(c.defaultScopes)
+	return append(types.StringArray(nil), c.defaultScopes...)
 }
-- 
2.43.0

