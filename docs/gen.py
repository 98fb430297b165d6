#!/usr/bin/env python3
# Regenerates properties.jsonl and MANIFEST.json of /verif from the table below.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, quant, why, files, mech, note, tech="explicit-state exploration of the real code", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, tech=tech, state=state, observe=observe))

SEQ = "explicit-state exploration: all operation histories to a depth on the real services against a reference model"
SCH = "explicit-state exploration of all histories + stateless model checking of all thread schedules (preemption bound) on the real code"
ENU = "bounded-exhaustive enumeration of executions of the real code against an independent oracle"
TOK = "server/services/token/"
p("C01", "Authorization codes are single use",
  "An authorization code yields tokens at most once, whatever sequence or overlap of redemptions is attempted. A well-formed redemption attempt at the issuer of the code consumes it even when the attempt is refused (wrong client, redirect_uri or code_verifier), so no later attempt can succeed. A code is never redeemable after the lifetime announced with it (60 seconds), nor at an issuer which did not issue it.",
  ["histories","schedules","inputs"], "every history of authorize / redeem (right or wrong verifier, redirect_uri, client, issuer) / clock steps to the bound, and every schedule of two and three concurrent redemptions within the preemption bound",
  "Tests replay single mocked redemptions with a storage mock; neither a second redemption against a real store nor an overlapping one is ever run.",
  [TOK+"grant_authorization_code.go","server/storage/inmemory/authorization_code_session.go","server/services/authorization/service.go"],
  [("code deleted before tokens are issued",TOK+"grant_authorization_code.go"),("atomic Get-and-remove in Delete","server/storage/inmemory/authorization_code_session.go")],
  "Exhaustive to history depth 5 (thorough 6) and preemption bound 2 (3) on the real services with the in-memory storages; time is virtual. Assumes deterministic generators for replay.", SCH,
  [("authorization code session","code -> request, client, expiry","server/storage/inmemory/authorization_code_session.go")], ["token response of the authorization_code grant"])
p("C02", "Authorization codes are bound to client, redirect_uri and PKCE verifier",
  "An authorization code is exchanged for tokens only when the authenticated client is the one it was issued to, the redirect_uri equals the one of the authorization request, the code_verifier hashes (S256) to the code_challenge of that request, and the client is still registered with the authorization_code grant. Any deviation is refused with a protocol error and gives no token.",
  ["inputs","histories","configurations"], "full product of client x redirect_uri x code_verifier x issuer x stored session variants, and every history of issuance, registry change and redemption to the bound",
  "Tests check one mismatch at a time against a mocked session; the product with stored-session and registry changes is not covered.",
  [TOK+"grant_authorization_code.go","sdk/pkce/verifier.go"], [("client, redirect_uri and verifier comparison",TOK+"grant_authorization_code.go"),("S256 verifier","sdk/pkce/verifier.go")],
  "Exhaustive within the listed alphabets; verifiers are 43-128 characters plus malformed ones.", SEQ)
p("C03", "Pushed authorization requests are single use and bound to their client",
  "A request_uri obtained from the pushed authorization endpoint starts at most one authorization, even under concurrent use, only at the issuer that issued it, only within its announced lifetime (60 seconds) and never for another client than the one that pushed it. The parameters of the resulting authorization are those which were pushed; parameters given on the front channel beside the request_uri never alter them.",
  ["histories","schedules","inputs"], "every history of push / use (owner, other client, anonymous, other issuer) / clock to the bound, every front-channel override combination, every schedule of concurrent uses within the preemption bound",
  "Tests use a mocked request storage, so single use and its atomicity are not observable in them.",
  ["server/services/authorization/service.go","server/storage/inmemory/authorization_request.go"], [("request consumed on use","server/services/authorization/service.go"),("atomic Delete","server/storage/inmemory/authorization_request.go")],
  "Exhaustive to history depth 5 (thorough 6), preemption bound 2 (3).", SCH,
  [("pushed request","request_uri -> request, client, expiry","server/storage/inmemory/authorization_request.go")])
p("C04", "Authorization requests are admitted only when every required parameter is valid",
  "An authorization code or a request_uri is issued only for a registered client which has the authorization_code grant, with a response_type and response_mode registered for it, exactly one of its registered absolute redirect_uris, a non-empty scope and audience, a state of at least 32 and a nonce of at least 8 bytes, and a 43 character code_challenge with method S256. Everything else is refused with an OAuth error, both when pushed, when sent directly and when a stored request is used.",
  ["inputs","configurations"], "every request that deviates from a valid one in at most 3 (thorough 4) dimensions simultaneously, at three entry points, and registry changes between push and use",
  "Tests check single deviations; interactions between two or three parameters and the stored-request path are not enumerated.",
  ["server/services/authorization/service.go","oidc/const.go"], [("request validation","server/services/authorization/service.go")],
  "Exhaustive over all combinations of at most 3 (4) deviating dimensions; each dimension has a finite alphabet including boundary lengths.", ENU)
p("C05", "Refresh tokens are issued only with openid, offline_access and explicit consent",
  "An authorization keeps the offline_access scope, and its code yields a refresh token, exactly when the request carried openid and offline_access in its scope and prompt=consent; every other requested scope is preserved. An authorization without openid in its scope yields no tokens from its code. A client_credentials or token-exchange request never returns a refresh token, whatever scope it names, and a device authorization returns one exactly when offline_access was requested.",
  ["inputs","histories"], "full product of scope strings (up to 4 words, letter case variants, repeats) x prompt values x entry points, followed end to end through redemption and refresh",
  "Tests use a handful of scope strings and stop at the service boundary; the end-to-end consequence is not tested.",
  ["server/services/authorization/service.go",TOK+"generator.go",TOK+"grant_authorization_code.go",TOK+"grant_device_code.go"], [("offline_access removed without consent","server/services/authorization/service.go"),("openid/offline check at token generation",TOK+"grant_authorization_code.go")],
  "Exhaustive over the scope grammar within its length bound.", ENU)
p("C06", "Each grant is available only to clients registered for it",
  "The token endpoint serves a request only when its grant_type is one the registered client is allowed to use and the matching grant payload is present. The client_credentials grant is only for confidential or credentialed clients, and its tokens have no end-user subject and no refresh token. The scope and audience of such a token are the requested ones.",
  ["inputs","configurations","histories"], "full product of client type x registered grants x grant_type/payload pairs x scope x audience x issuer x confirmation, and all histories of registry change and requests to the bound",
  "Tests cover one client fixture per grant; mismatched grant_type/payload pairs and client types are not enumerated.",
  [TOK+"service.go",TOK+"grant_client_credentials.go"], [("grant dispatch",TOK+"service.go"),("client type check",TOK+"grant_client_credentials.go")],
  "Exhaustive within the listed alphabets.", SEQ)
p("C07", "Device flow: tokens only after one approval, for the right client",
  "A device code gives tokens only to the client that requested it, at the issuer that issued it, before its expiry (120 seconds), and only after a user approved the matching user code; the subject of the tokens is that approving user and the scope and audience those requested. Before approval the client gets authorization_pending. A user code is approved at most once, even by concurrent approvals: the first approver is never replaced.",
  ["histories","schedules","inputs"], "every history of device request / poll / approve / clock with right and wrong parties to the bound, all stored session states, every schedule of concurrent approvals and polls within the preemption bound",
  "Tests mock the session storage; approval racing another approval or a poll is unobservable.",
  ["server/services/device/service.go",TOK+"grant_device_code.go","server/storage/inmemory/device_code_session.go"], [("validate once under a lock","server/storage/inmemory/device_code_session.go"),("pending and expiry checks",TOK+"grant_device_code.go")],
  "Exhaustive to history depth 5 (thorough 6), preemption bound 2 (3).", SCH,
  [("device code session","device code / user code -> client, status, subject, expiry","server/storage/inmemory/device_code_session.go")])
p("C08", "Refresh tokens: owner only, never after revocation or expiry, rotated once",
  "A refresh request succeeds only with an active unexpired refresh token presented by the client it was issued to at the same issuer; the new access token inherits subject, scope, audience and key confirmation, and can be neither widened nor rebound. When less than an hour of the refresh token's life is left, the refresh returns a new refresh token and revokes the old one; otherwise the old one remains. Concurrent refreshes never rotate one refresh token into two, and a refresh token that lost the race stays revoked.",
  ["histories","schedules","inputs"], "every history of refresh / revoke / clock up to and past the 7 day life, all stored token states, every schedule of concurrent refreshes within the preemption bound",
  "Tests check one refresh with a mocked token storage; no rotation history or race is run.",
  [TOK+"grant_refresh_token.go",TOK+"generator.go","server/storage/inmemory/token.go"], [("owner, type, status, expiry checks",TOK+"grant_refresh_token.go"),("revocation by the winner only","server/storage/inmemory/token.go")],
  "Exhaustive to history depth 4 (thorough 5), preemption bound 2 (3).", SCH)
p("C09", "Token exchange never widens authority",
  "A token exchange succeeds only with an active, unexpired access token of the same issuer as subject token, for a registered client with the grant and for audiences that are registered resources. The new token keeps the subject, has a scope that is a subset of the subject token's scope, expires no later than the subject token, inherits its key confirmation, and comes without refresh token.",
  ["inputs","histories"], "full product of subject scope x requested scope x audience x remaining lifetime x confirmation x token state; every history of exchange chains / revocation / clock to the bound",
  "Tests cover a few single exchanges; chains and combinations of scope and remaining life are not enumerated.",
  [TOK+"grant_token_exchange.go",TOK+"generator.go"], [("subject token checks",TOK+"grant_token_exchange.go"),("expiry capped by the subject token",TOK+"grant_token_exchange.go")],
  "Exhaustive within the alphabets, history depth 4 (thorough 5).", SEQ)
p("C10", "Revocation takes effect immediately, by the owner only",
  "After a successful revocation of a token by the client it was issued to, at its issuer, that token is never again usable: introspection reports it revoked, and refresh and exchange refuse it. A request by another client or at another issuer never revokes anything, and no concurrent operation restores a revoked token. Introspection reports exactly the stored state for known tokens, and for unknown values an inactive answer without metadata.",
  ["histories","schedules","inputs"], "every history of revoke / introspect / refresh / exchange by owner and others to the bound; every schedule of a revocation against use, issuance, other revocations within the preemption bound",
  "Tests revoke one mocked token; visibility from the other endpoints and races are not tested.",
  [TOK+"revoke.go",TOK+"introspection.go","server/storage/inmemory/token.go"], [("ownership check",TOK+"revoke.go"),("serialized token writes","server/storage/inmemory/token.go")],
  "Exhaustive to history depth 4 (thorough 5), preemption bound 2 (3). The error of revoking unknown tokens is pinned by upstream tests and not claimed.", SCH)
p("C11", "Issued tokens carry the right metadata and are what is stored",
  "Every token handed out is stored with issuer, client, subject, scope, audience and key confirmation as authorized, issue time now, an expiry of one hour (access) or seven days (refresh), status active, and a value and identifier never used before at that issuer. The introspection endpoint then reports that stored record, and the response's token value and expires_in agree with it.",
  ["histories","inputs","schedules"], "every history issuing tokens through every grant with and without confirmation to the bound, every token compared field by field with the reference model; concurrent issuances under all schedules within the preemption bound",
  "Tests compare a response with the mock's own values, so a field taken from the wrong source or clock passes.",
  [TOK+"generator.go",TOK+"introspection.go","server/storage/inmemory/token.go"], [("token metadata construction",TOK+"generator.go")],
  "Exhaustive to history depth 4 (thorough 5), preemption bound 2.", SCH)
p("C12", "Artefacts of one issuer are useless at every other issuer",
  "A code, request_uri, device code, user code, access token or refresh token created at one issuer is never accepted, revealed, consumed, revoked or altered through a request at any other issuer, whatever the spelling of the two issuer names (one a prefix of another, containing separators).",
  ["histories","inputs","configurations"], "every history creating artefacts at three issuers and presenting each at every issuer; every way of splitting a string into issuer and value at every storage",
  "Tests run with a single issuer name.",
  ["server/storage/inmemory/authorization_code_session.go","server/storage/inmemory/authorization_request.go","server/storage/inmemory/device_code_session.go","server/storage/inmemory/token.go",TOK+"grant_refresh_token.go"], [("issuer-qualified storage keys","server/storage/inmemory/token.go")],
  "Exhaustive within the alphabets. Issuer names containing NUL are excluded (not a valid URL character).", SEQ)
p("C13", "A failing collaborator never leads to an unintended grant",
  "When any storage, registry or generator call made while serving a request fails, before or after taking effect, the request ends with an error and an OAuth error response that carries no credential. Single-use artefacts stay at most single-use through any series of failures, and once the collaborator works again, fresh requests succeed.",
  ["fault_sequences","histories"], "every collaborator call position of every operation x error kind x before/after effect, and all sequences of up to 2 (thorough 3) faulty attempts at one artefact followed by fault-free ones",
  "Tests inject one fault per mock expectation, before the effect, and never look at the state that is left behind.",
  [TOK+"grant_authorization_code.go",TOK+"grant_refresh_token.go",TOK+"grant_token_exchange.go",TOK+"grant_device_code.go","server/services/authorization/service.go","server/services/device/service.go"], [("error paths of every service",TOK+"service.go"),("consume before issue",TOK+"grant_authorization_code.go")],
  "Exhaustive single faults and fault sequences of length 2 (3); faults are injected at the storage and generator interfaces.", "systematic fault injection at every collaborator call with exhaustive fault sequences on the real services")
p("C14", "DPoP proofs are accepted exactly when they are valid for the request",
  "A DPoP proof is accepted only if it is a dpop+jwt signed by the asymmetric public key embedded in it with an allowed algorithm, its htm and htu match the request's method and URL (ignoring query), it carries a jti, its iat is recent and not in the future beyond the tolerance, and, when an access token is presented, its ath is the hash of that token and the token's confirmation is that key's thumbprint. The thumbprint returned is that of the embedded key, and a proof made by the library's prover for a request is accepted for that request.",
  ["inputs","configurations"], "every combination of at most 3 deviations from a valid proof and request, every single-byte alteration, every method/URL form in prover-verifier roundtrips, storage faults",
  "Tests verify a few fixed proofs; combinations and the URL forms are not covered.",
  ["sdk/dpop/verifier.go","sdk/dpop/prover.go"], [("proof verification","sdk/dpop/verifier.go"),("proof creation","sdk/dpop/prover.go")],
  "Exhaustive within the deviation bound. Fragments, empty URL paths and lower-case methods are left open.", ENU)
p("C15", "A DPoP proof is accepted at most once",
  "A given DPoP proof (same key and jti) is accepted at most once within its validity, by any number of verifiers sharing a proof storage, sequentially or concurrently. A proof refused as invalid does not prevent a later valid one with a different jti, and two different fresh proofs are both accepted.",
  ["schedules","histories","inputs"], "every interleaving within the preemption bound of 2 and 3 concurrent verifications over one storage, every history of verification, storage operation and clock steps to the bound",
  "Tests call the verifier once with a mocked storage; the check-then-register race needs two verifications in flight.",
  ["sdk/dpop/verifier.go","server/storage/inmemory/proof.go"], [("atomic registration of the proof id","server/storage/inmemory/proof.go")],
  "Exhaustive to history depth 5 (thorough 6), preemption bound 2 for two threads, 1 for three (thorough 3 and 2).", SCH)
p("C16", "private_key_jwt authenticates only the holder of the client's key",
  "Client authentication by private_key_jwt succeeds only for a registered client whose registered key set holds a public key that verifies the assertion's signature with an allowed algorithm, with iss and sub both naming that client, unexpired, and carrying the required claims. The client returned is exactly that registered client; a storage fault, a missing or broken key set, or any altered assertion is refused with an OAuth error.",
  ["inputs","configurations","histories","fault_sequences"], "every combination of at most 3 deviations of assertion, registration and storage answer; every byte altered; every history of key rotations to the bound",
  "Tests check single malformed assertions with one key.",
  ["server/clientauthentication/private_key_jwt.go"], [("assertion verification","server/clientauthentication/private_key_jwt.go")],
  "Exhaustive within the deviation bound; nbf, the aud value and assertion replay are not enforced by the code and not claimed.", ENU)
p("C17", "Attestation-based client authentication requires both valid proofs",
  "Attestation-based client authentication succeeds only with a client attestation signed by a registered attester's key, unexpired, whose subject is the registered client, and a proof-of-possession token signed by the key confirmed inside that attestation, issued by that client, unexpired and fresh. The client returned is exactly that client; anything altered, missing, or failing in storage is refused with an OAuth error.",
  ["inputs","configurations","histories","fault_sequences"], "every combination of at most 3 deviations of attestation, proof, registration and storage answer; every byte altered; every history of rotation and clock to the bound",
  "Tests use fixed tokens and single deviations.",
  ["server/clientauthentication/client_attestation.go"], [("attestation and proof verification","server/clientauthentication/client_attestation.go")],
  "Exhaustive within the deviation bound; audience of the attestation and which registered client may attest are not claimed.", ENU)
p("C18", "JARM responses round-trip and are authenticated",
  "A JWT-secured authorization response decodes to exactly the code, state or error that was encoded, and only if its signature verifies with the issuer's key, and for success responses its issuer and audience are the expected ones and it is unexpired. Altered, expired, foreign or malformed response tokens, and failing keys or serializers, give an error and no response.",
  ["inputs","configurations"], "every combination of at most 3 deviations from a valid response token, every encoder input, every issuer/audience/clock roundtrip, every byte altered",
  "Tests cover one round trip and a few mutations.",
  ["sdk/jarm/encoder.go","sdk/jarm/decoder.go"], [("encoder","sdk/jarm/encoder.go"),("decoder","sdk/jarm/decoder.go")],
  "Exhaustive within the deviation bound; issuer/audience/expiry of error responses are not carried by the format and not claimed.", ENU)
p("C19", "Request objects preserve every parameter and are authenticated",
  "An authorization request encoded into a signed request object and decoded again is identical in every field, and never carries a nested request. A request object is accepted only if its signature verifies with one of the keys given and an allowed algorithm; altered or foreign objects are refused and give no request.",
  ["inputs","configurations"], "every pair of fields x every pair of values through encoder and decoder, every combination of deviations of the signed object, every byte altered",
  "Tests encode one request.",
  ["sdk/jwsreq/encoder.go","sdk/jwsreq/decoder.go"], [("encoder","sdk/jwsreq/encoder.go"),("decoder","sdk/jwsreq/decoder.go")],
  "Exhaustive over field/value pairs; the typ header and unknown claims are left open.", ENU)
p("C20", "Signed tokens verify exactly under the issuing key and expected type",
  "A JWT or CWT built by the library's signers verifies under the matching public key, carries the expected type header and key id, and returns the claims that were signed. Claims are released only when the signature verifies with a key of the configured set (selected by key id when given) and an allowed algorithm; a wrong key, algorithm, key id, type or altered byte, or a failing key provider, gives an error and no claims.",
  ["inputs","configurations"], "full product of builders x keys x algorithms x claims and of verifier key sets x header key ids x signing keys x algorithms x allowed algorithms; every byte altered",
  "Tests check a couple of keys and tokens per component.",
  ["sdk/token/jwt/signer.go","sdk/token/jwt/verifier.go","sdk/token/jwt/token_adapter.go","sdk/token/cwt/signer.go","sdk/jwk/signature.go"], [("JWT signer","sdk/token/jwt/signer.go"),("JWT verifier","sdk/token/jwt/verifier.go"),("CWT signer","sdk/token/cwt/signer.go")],
  "Exhaustive within the product. DefaultVerifier.Verify (pinned to not check signatures) is excluded. sdk/token/paseto cannot be built offline and is excluded.", ENU)
p("C21", "Verifiable tokens are accepted exactly when generated under the same secret",
  "A verifiable token generated with a prefix and secret is accepted by a verifier with the same prefix and secret, and extraction returns the identifier inside it. No other string is accepted: every single-character substitution, deletion, insertion or swap, another prefix or another secret is refused, and no input makes verification or extraction panic.",
  ["inputs"], "every UUID pattern x prefix x secret; every position x every character substitution, deletion, duplication, insertion and swap; every prefix split; independent construction of token values",
  "Tests alter a few characters of one token.",
  ["sdk/token/verifiable/uuid.go","sdk/token/verifiable/api.go"], [("keyed checksum and canonical encoding","sdk/token/verifiable/uuid.go")],
  "Exhaustive over single edits of every generated token.", ENU)
p("C22", "Pairwise subjects are stable, distinct and need a strong salt",
  "The pairwise identifier of a subject for a sector is deterministic for a salt, and different for a different subject, sector or salt (a sector and a subject whose concatenation is the same count as one); it does not reveal the subject. Encoding refuses a salt shorter than 16 or longer than 64 bytes and a blank subject, and concurrent use of an encoder gives the same identifiers as sequential use.",
  ["inputs","histories","schedules"], "full product of salts x sectors x subjects with every pair compared; all salt lengths; call histories and schedules on a shared encoder",
  "Tests compute one identifier.",
  ["sdk/pairwise/hash.go"], [("salted hash","sdk/pairwise/hash.go")],
  "Exhaustive over the alphabets; strings whose concatenation of sector and subject coincide are excluded.", ENU)
p("C23", "PKCE accepts a verifier only for its own challenge",
  "The S256 check succeeds exactly when the challenge is the base64url SHA-256 of the verifier, for well-formed verifiers; it never succeeds for another verifier, another challenge or an unknown method. Generated verifiers are well-formed, match their own challenge and never repeat.",
  ["inputs"], "every verifier length x character class, every single-character alteration of verifier and challenge, full product of verifiers x challenges, generated pairs",
  "Tests check a few literal pairs.",
  ["sdk/pkce/verifier.go"], [("challenge computation and comparison","sdk/pkce/verifier.go")],
  "Exhaustive over the alphabets.", ENU)
p("C24", "Generated codes are well-formed, unique and accepted by their validators",
  "Every authorization code, device code, user code, request_uri and client id produced by the default generators has its documented length, alphabet and shape, is drawn at random so that it does not repeat, and is accepted by the library's own validator. The validators refuse codes of any other length and request_uris of any other shape.",
  ["inputs","histories"], "every generator for every issuer over many calls; validators on every length and every single-character alteration",
  "Tests check that a generator returns no error.",
  ["sdk/generator/authorization_code.go","sdk/generator/device_code.go","sdk/generator/device_user_code.go","sdk/generator/request_uri.go","sdk/generator/client.go"], [("generators and validators","sdk/generator")],
  "Exhaustive over single edits; uniqueness over the enumerated number of calls.", ENU)
p("C25", "In-memory storages behave as linearizable issuer-scoped maps",
  "Every in-memory storage answers any sequence of its operations as a map keyed by issuer and value with expiry would: what was registered is what is returned until deleted or expired, deletion succeeds only once, and lookups by the secondary key (user code, token value, client name) agree. Concurrent operations have the effect of some sequential order, and mutating a returned token or device session never changes the stored one.",
  ["histories","schedules","inputs"], "every sequence of operations over two issuers, two keys and the clock to the bound against a reference map; every schedule of every assignment of 2 and 3 concurrent operations within the preemption bound, checked for linearizability",
  "Tests are absent for most storages; concurrency is not tested.",
  ["server/storage/inmemory/authorization_code_session.go","server/storage/inmemory/authorization_request.go","server/storage/inmemory/device_code_session.go","server/storage/inmemory/token.go","server/storage/inmemory/client.go","server/storage/inmemory/proof.go"], [("cache keyed by issuer and value","server/storage/inmemory/token.go"),("mutexes","server/storage/inmemory/device_code_session.go")],
  "Exhaustive to depth 4 (thorough 5), preemption bound 2 (3); token linearizability per lookup key.", SCH)
p("C29", "String collections, secure comparison and nil tests are exact",
  "The string array operations behave as an order-preserving list with case-insensitive membership: adding never duplicates, removing removes every equal element and nothing else, and Has/HasAll/HasOneOf answer membership. Secure comparison is true exactly for equal inputs, and the nil test exactly for nil and typed nil values.",
  ["inputs","histories"], "every array up to length 4 over an alphabet with case variants x every argument list, all histories of mutations against a reference list, every pair of byte strings up to the bound",
  "Tests use a few literal arrays.",
  ["sdk/types/string_array.go","sdk/types/null.go","sdk/types/compare.go"], [("array operations","sdk/types/string_array.go")],
  "Exhaustive over the alphabet up to the length bound. HasAll without items is left open.", ENU)

exec(open(os.path.join(root, "docs/more.py")).read()) if os.path.exists(os.path.join(root, "docs/more.py")) else None
P.sort(key=lambda d: d["id"])
NA = []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for d in P:
        a = {"files": d["files"], "mechanism": [{"name": n, "where": w} for n, w in d["mech"]]}
        if d["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in d["state"]]
        if d["observe"]: a["observe_at"] = d["observe"]
        a["hook_needed"] = None
        assert len(d["title"]) <= 80, d["title"]
        for x in d["files"]:
            assert os.path.exists("/repo/" + x), (d["id"], x)
        f.write(json.dumps({"id": d["id"], "title": d["title"], "statement": d["statement"], "quantifier": {"over": d["over"], "text": d["quant"]}, "why_tests_cant": d["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "bash mc/setup.sh", "checks": [], "not_applicable": NA,
     "notes": "No hook is committed to /repo: the checks build an instrumented copy of its sources through a go build overlay made by mc/instr (virtual time, controlled scheduler). Known findings and fixed defects: known-findings.txt."}
for d in P:
    m["checks"].append({"property": d["id"], "quick_cmd": "bash check.sh %s quick" % d["id"], "thorough_cmd": "bash check.sh %s thorough" % d["id"],
        "technique": d["tech"], "level": "model_checking", "level_note": d["note"]})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
