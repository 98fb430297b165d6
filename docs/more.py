p("C26", "No input or stored record makes the server or the SDK panic or answer half",
  "Whatever a request, a stored record, a token text or a collaborator's answer contains, every service, authenticator and decoder returns normally: either a result without error, or an error with a protocol error and nothing granted. No part of a message being absent, empty, oversized or out of range, alone or in pairs, makes it panic.",
  ["inputs","fault_sequences"], "every field of every request message and of every stored record set to every value of its type's alphabet (absent, empty, extreme, foreign), alone and in pairs; every missing payload; structurally wrong tokens in every decoder",
  "Tests feed well-formed messages with a few blank fields; stored records are never malformed in them.",
  ["server/services/token/service.go","server/services/authorization/service.go","server/services/device/service.go","server/clientauthentication/private_key_jwt.go","server/clientauthentication/client_attestation.go","sdk/jarm/decoder.go","sdk/jwsreq/decoder.go"],
  [("nil and blank checks","server/services/token/service.go"),("decoders","sdk/jarm/decoder.go")],
  "Exhaustive over single fields and pairs of fields, by reflection over the message descriptors. Typed nil payload wrappers and storages answering nothing without error are excluded.", ENU)
p("C27", "Issued token values carry exactly the claims of the token record",
  "A JWT or CWT access or refresh token, a client assertion and an introspection token carry exactly the issuer, subject, audience, times, identifier, client, scope and key confirmation of the token they are made for, and are made only for records whose identity and times are present and consistent. An expired, not yet valid or revoked token is reported inactive by a signed introspection, an encrypted token is the encryption of the serialized one, and opaque and verifiable values never repeat.",
  ["inputs","histories"], "full product of times x identities x status x confirmation for every generator against an independent oracle of the claims; signed code and refresh grants end to end",
  "Tests compare a handful of fixed records.",
  ["sdk/token/access_token.go","sdk/token/refresh_token.go","sdk/token/client_assertion.go","sdk/token/introspection.go","sdk/token/encrypted.go","sdk/token/helpers.go","sdk/token/token.go"],
  [("claims mapping","sdk/token/access_token.go"),("usability of a token","sdk/token/helpers.go")],
  "Exhaustive over the alphabets of each field; uniqueness over the enumerated number of values.", ENU)
p("C28", "The random source is reproducible per seed, in range and safe to share",
  "A random generator shared by any number of callers draws the sequence of its seed in some sequential order, without data race; a call that panics leaves it usable. Draws stay within the requested range, permutations and shuffles lose nothing, and the process-wide generator is seeded unpredictably.",
  ["histories","schedules","inputs"], "every sequence of operations to the depth against a reference generator of the same seed; every schedule of every pair and triple of concurrent operations within the preemption bound with the race detector; every panicking call followed by every operation",
  "Tests draw sequentially.",
  ["sdk/randomness/locked_rand.go","sdk/randomness/global.go","sdk/randomness/source.go"], [("mutex around every operation","sdk/randomness/locked_rand.go")],
  "Exhaustive to sequence depth 3 (thorough 4), preemption bound 2 (3).", SCH)
p("C30", "The HTTP client trusts only complete, successful and fresh answers",
  "The client library connects only when metadata and a non-empty unexpired key set were received completely, serves cached keys only until their announced expiry and fetches them again afterwards, and returns a token or an introspection result only from a complete successful answer. The introspection result carries exactly the fields of the answer, every request sends exactly the documented parameters, and its assertions authenticate it, and only it, at the server for their short lifetime.",
  ["inputs","histories","fault_sequences"], "every status code x body x transport failure at every endpoint; every history of key requests, rotations, server failures, cancellations and clock steps to the depth against a reference cache; full product of introspection fields",
  "The client package has no tests.",
  ["client/http.go","client/claims.go"], [("key set cache","client/http.go"),("response checks","client/http.go")],
  "Exhaustive within the alphabets, history depth 6 (thorough 7), against an in-process server. Error texts, body closing and metadata issuer comparison are not claimed.", SEQ,
  [("key set cache","keys and their expiry","client/http.go")])
p("C31", "Concurrent requests never race, deadlock or disturb each other",
  "Services, storages, authenticators, token generators and verifiers, encoders and the HTTP client can be shared by concurrent callers: there is no data race and no deadlock, every caller gets an answer it could have got in some sequential order, and the resulting state is the one of that order. Nothing of one caller's request ever appears in another's answer or tokens, and no request alters a registered client.",
  ["schedules"], "every pair of operations (19 server operations, 20 SDK operations), for the same and for different parties and artefacts, and triples, under every schedule within the preemption bound, with the race detector and a comparison with every sequential order",
  "No test runs two calls concurrently.",
  ["server/services/token/service.go","server/services/authorization/service.go","server/services/device/service.go","server/storage/inmemory/client.go","server/storage/inmemory/token.go","server/storage/inmemory/proof.go","client/http.go","sdk/pairwise/hash.go","sdk/token/jwt/signer.go"],
  [("mutexes of the stores","server/storage/inmemory/token.go"),("key set cache mutex","client/http.go"),("stateless services","server/services/token/service.go")],
  "Preemption bound 1 for server operations (thorough 2 for the same party), 2 for SDK objects. Operations whose statement count depends on chance are scheduled only at their locks. A revocation overtaken by another one may report an error.", SCH)
p("C32", "Every API message survives its JSON form unchanged",
  "Writing any API message (client registration, session, token, request, response, server metadata) as JSON and reading it back gives the same message, under the documented member names, with every text, number and byte string exact. Unknown members are ignored, what the reading object held before is forgotten, and truncated or wrongly typed text is refused.",
  ["inputs"], "every message type x every pair of fields x every pair of values, every member with every wrongly typed value, every truncation",
  "No test writes or reads these messages as JSON.",
  ["api/oidc/client/v1/client.pb.json.go","api/oidc/session/v1/session.pb.json.go","api/oidc/token/v1/token.pb.json.go","api/oidc/flow/v1/flow_api.pb.json.go","api/oidc/discovery/v1/server.pb.json.go","api/oidc/core/v1/error.pb.json.go"],
  [("JSON methods of the messages","api/oidc/token/v1/token.pb.json.go")],
  "Exhaustive over pairs of fields within the value alphabets. Unknown enum names read as the unspecified value; whether unset members are written is left open.", ENU)
p("C33", "Error objects, profiles and client contexts are exact and isolated",
  "Every protocol error carries its registered code, a printable description and only the state given for it: nothing set on one error shows up in another, whatever callers do before, after or at the same time. The strict profile always offers exactly its documented grants, response types and authentication methods, however callers edit what they got, and a context yields exactly the client injected into it.",
  ["histories","schedules","configurations"], "every history of builder operations over every kind of error, of profile edits and of context derivations to the depth against a reference; every pair of concurrent operations within the preemption bound with the race detector",
  "Tests compare single errors only.",
  ["sdk/rfcerrors/builder.go","sdk/rfcerrors/errors.go","server/profile/client.go","server/profile/profile_strict.go","server/clientauthentication/context.go"],
  [("fresh builder per error","sdk/rfcerrors/errors.go"),("profile tables","server/profile/profile_strict.go"),("private context key","server/clientauthentication/context.go")],
  "Exhaustive to builder depth 4, profile depth 2 (3), context depth 4 (5), preemption bound 3 (4).", SCH)
p("C34", "Every API message survives its binary form unchanged",
  "Writing any API message in its binary form and reading it back, with the library's fast codec or with the standard one on either side, gives the same message; the announced size is the size written, and writing into a caller's buffer touches nothing else of it. Reading into a used message merges as the standard codec does. No text makes the reader panic, and a truncated or malformed one is never read as a message. Every accessor answers the value of its own field, and the zero value when it is unset or the message is nil.",
  ["inputs"], "every message type x every pair of fields x every pair of values (lengths and numbers of every encoded size), every cut and every byte of an encoded message replaced, every field number x wire type",
  "No test uses the binary form of these messages.",
  ["api/oidc/client/v1/client_vtproto.pb.go","api/oidc/client/v1/client.pb.go","api/oidc/session/v1/session_vtproto.pb.go","api/oidc/token/v1/token_vtproto.pb.go","api/oidc/token/v1/token.pb.go","api/oidc/flow/v1/flow_api_vtproto.pb.go","api/oidc/flow/v1/flow_vtproto.pb.go","api/oidc/flow/v1/token_grant_vtproto.pb.go","api/oidc/discovery/v1/server_vtproto.pb.go","api/oidc/core/v1/error_vtproto.pb.go","api/oidc/resource/v1/resource_vtproto.pb.go"],
  [("size, writer and reader of each message","api/oidc/token/v1/token_vtproto.pb.go")],
  "Exhaustive over pairs of fields within the value alphabets, against the protobuf codec. Left open: texts that are not valid UTF-8, damaged map entries, unusual encodings of unknown fields.", ENU)
p("C35", "Remote services answer as the service behind them does",
  "A call made through the gRPC client of a service reaches, under the method's described name, the method of that name of the registered service exactly once, with the request, context and call options the caller gave, and returns exactly what the service answered: its message, or no message and its status. An interceptor sees the request, method and server, and what it decides takes effect; a request that does not arrive whole or a broken connection never reaches the service, and a method not implemented says so.",
  ["inputs","histories","fault_sequences"], "every method x every value of every field of request and response x every status code x every interceptor behaviour x transport failures, and every history of calls to the depth through one connection with all services registered",
  "No test uses the gRPC services.",
  ["api/oidc/client/v1/client_api_grpc.pb.go","api/oidc/flow/v1/flow_api_grpc.pb.go","api/oidc/token/v1/introspection_api_grpc.pb.go","api/oidc/token/v1/revocation_api_grpc.pb.go"],
  [("clients, handlers and service descriptions","api/oidc/flow/v1/flow_api_grpc.pb.go")],
  "Exhaustive to history depth 3 (thorough 4) over an in-process connection that passes the standard binary form; the network transport of gRPC itself is not explored.", SEQ)
