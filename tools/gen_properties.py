#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept in one place so that titles/statements stay in step)."""
import json, os
AT="crates/openid4vci/src/access_token/mod.rs"; ATE="crates/openid4vci/src/access_token/error.rs"; ATC="crates/openid4vci/src/access_token/error_response.rs"
CI="crates/openid4vci/src/credential_issuer/mod.rs"; CIE="crates/openid4vci/src/credential_issuer/error.rs"; CIC="crates/openid4vci/src/credential_issuer/error_code.rs"
JW="crates/openid4vci/src/jwt/mod.rs"; JWE="crates/openid4vci/src/jwt/error.rs"
CR="crates/openid4vci/src/types/credential.rs"; RQ="crates/openid4vci/src/types/credential_request.rs"; MD="crates/openid4vci/src/types/credential_issuer_metadata.rs"; TT="crates/openid4vci/src/types/token_type.rs"
VA="crates/openid4vci/src/validate.rs"; MA="crates/openid4vci/src/macros.rs"; ER="crates/openid4vci/src/error.rs"; RO="crates/openid4vci/src/return_object.rs"; ERR="crates/openid4vci/src/error_response.rs"; BA="crates/openid4vci/src/base.rs"
EVT="AccessToken::evaluate_access_token_request"; EVC="CredentialIssuer::evaluate_credential_request"; PRE="CredentialIssuer::pre_evaluate_credential_request"; OFF="CredentialIssuer::create_offer"; SUC="CredentialIssuer::create_credential_success_response"; ATS="AccessToken::create_access_token_success_response"
P=[]
def p(id,title,stmt,over,quant,why,files,mech,obs):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,state=[],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
I=["inputs"]
p("C01","A token request is accepted only for the offer's own pre-authorized code",
 "An access-token request is accepted only when a credential offer is supplied, that offer contains the pre-authorized-code grant, the request uses the pre-authorized-code grant type, and the code in the request equals, character for character, the code in that grant. Any other request is refused with an error.",
 I,"every token request, every offer (either, both or no grants), every options value","Five or so fixed examples; every pair of codes and every grant combination is unbounded.",[AT],[("code comparison and grant selection",EVT)],["Result of "+EVT])
p("C02","A user PIN is accepted only when required and equal to the expected one",
 "An accepted token request carries a user PIN exactly when the offer's pre-authorized grant requires one (an absent flag means not required), and a PIN it carries equals the expected PIN given in the evaluation options. A request carrying a PIN is never accepted when there is no expected PIN to compare it with.",
 I,"every combination of requirement flag, supplied PIN and expected PIN","Tests sample five PIN/flag combinations.",[AT],[("PIN presence and equality tests",EVT)],["Result of "+EVT])
p("C03","User PINs longer than eight digits are refused, and no shorter PIN is",
 "A token request whose user PIN has more than eight decimal digits is refused before anything else about it is accepted, and a PIN of at most eight digits is never refused because of its length. The same holds when the request alone is validated.",
 I,"every PIN value of the 64-bit range","The tests use one 3-digit, one 6-digit and one 11-digit PIN; the boundary is not sampled.",[AT],[("PIN length check","GrantType::validate")],["Result of AccessTokenRequest/GrantType validation and of "+EVT])
p("C04","The authorization-code flow is always refused as unsupported",
 "A token request with the authorization-code grant type is never accepted and is refused as an unsupported flow whatever offer accompanies it, and a credential offer is never created when an authorization-code grant is supplied. Both refusals name the unsupported authorized flow.",
 I,"every offer, options value, metadata and grant combination","Tests cover one offer shape each.",[AT,CI],[("early refusal",EVT),("early refusal",OFF)],["Results of "+EVT+" and "+OFF])
p("C05","Token refusals are justified and name their true cause",
 "A token request that satisfies every acceptance condition is never refused, and each refusal names a condition that really failed for that request: no offer, no grant in the offer, wrong grant type, missing expected PIN, different PIN, or wrong code/PIN presence with flags that report the actual comparison. In particular the reported 'pin should be supplied' and 'code matches' flags equal the offer's requirement and the true comparison result.",
 I,"every request, offer and options value","Tests look at one error value per cause and never at the converse.",[AT,ATE],[("error construction",EVT)],["Err value of "+EVT])
p("C06","Responses carry exactly the caller's values in the matching fields",
 "Each of the response constructors (token success, token error, credential success, credential error) returns, in every field of the response, exactly the value the caller passed for that field: no two fields are exchanged, none is dropped, defaulted or altered, and the credential response's format is that of the request. The timestamp returned with a success response is the current time.",
 I,"every combination of present and absent arguments","Tests check one argument combination, with several fields of equal type left None.",[AT,CI,ERR],[("construction",ATS),("construction",SUC),("construction","create_*_error_response")],["Returned response structures"])
p("C07","A token response never carries a nonce lifetime without a nonce",
 "No successful call that builds an access-token success response returns one with a nonce lifetime but no nonce, validation of such a response reports the inconsistency, and every consistent response is built without error.",
 I,"every combination of the eight response fields","No test supplies a lifetime without a nonce.",[AT],[("consistency rule","AccessTokenSuccessResponse::validate"),("call",ATS)],["Result of "+ATS])
p("C08","Every credential id in an offer resolves to the metadata entry with that id",
 "A credential offer is created only if every credential identifier in it equals the id of some entry in the issuer metadata, and the first identifier that does not is reported in the refusal. Resolving an identifier returns the format of an entry whose id is exactly that identifier; resolving an embedded credential returns it unchanged; resolving a list returns one result per element, in order.",
 I,"every metadata and every list of identifiers and embedded credentials","Tests use one metadata entry and one identifier.",[CI],[("lookup","CredentialOrId::resolve"),("loop","CredentialOrIds::resolve_all"),("call",OFF)],["Results of resolve, resolve_all, "+OFF])
p("C09","The offer URL and the offer structure describe the same offer",
 "A successfully created offer names the metadata's issuer, exactly the credentials given and exactly the grants given. The URL returned with it is the supplied offer endpoint followed by '?' (or the openid-credential-offer:// scheme when there is none), then 'credential_offer=' and the percent-encoded JSON of that very offer.",
 I,"every issuer, credential list, grant and endpoint","Tests compare two literal URLs.",[CI],[("construction",OFF),("encoding","CredentialOffer::url_encode")],["Result of "+OFF])
p("C10","Issuer metadata with duplicate credential ids is never used",
 "Creating an offer or evaluating a credential request succeeds only if no two supported credentials in the given issuer metadata have the same id, wherever they stand in the list. Metadata whose present ids are all different, and entries without an id, are never refused for that reason.",
 I,"every list of supported credentials","Tests use lists of at most two entries.",[MD,CI],[("uniqueness test","CredentialIssuerMetadata::validate"),("call",OFF),("call",EVC)],["Results of "+OFF+", "+EVC+" and metadata validation"])
p("C11","A proof is accepted only when its nonce equals the expected nonce",
 "A credential request is evaluated successfully only if the caller supplied an expected nonce and the nonce claim inside the proof token equals it exactly. The refusal of a mismatch reports the expected and the actual nonce each in its own place.",
 I,"every proof, nonce and options value","Tests use two fixed nonces.",[CI,JW],[("comparison","ProofJwt::check_nonce"),("call",EVC)],["Result of "+EVC])
p("C12","A proof is never accepted after the nonce lifetime has run out",
 "A credential request is evaluated successfully only if the current time is not later than the nonce's creation time plus its lifetime in seconds, computed from the caller's nonce options. A request is refused as expired only when that is false, and the refusal reports that expiry time and the current time.",
 ["inputs","schedules"],"every creation time, lifetime and clock reading","Tests use one expired and a few far-future nonces; boundary and units are not sampled.",[CI],[("expiry computation",EVC)],["Result of "+EVC])
p("C13","A proof is accepted only when its audience is the credential issuer",
 "A credential request is evaluated successfully only if the audience claim of the proof token equals the credential issuer identifier of the supplied issuer metadata exactly. A mismatch is refused with both values reported, each in its own place.",
 I,"every audience and issuer identifier","One mismatch example.",[CI,JW],[("comparison","ProofJwt::check_aud"),("call",EVC)],["Result of "+EVC])
p("C14","The proof issuer is compared with the client id whenever the rules demand it",
 "With evaluation options supplied, a credential request is evaluated successfully only if the proof's issuer claim equals the client id of the options, except when there is no client id, the offer has the pre-authorized grant and the offer has no authorization-code grant; only in that case is the claim ignored. A mismatch is refused with the expected and actual values each in its own place, and a match or an exempted request is never refused for this reason.",
 I,"every combination of client id, issuer claim and offer grants","Tests take four of the twelve combinations.",[CI,JW],[("rule",EVC),("comparison","ProofJwt::check_iss")],["Result of "+EVC])
p("C15","Only correctly typed proofs pass any credential-request operation",
 "Pre-evaluating, evaluating, or answering a credential request that carries a proof succeeds only if the declared proof type is 'jwt' in any letter case, the proof parses as a compact token, and its header type is 'openid4vci-proof+jwt' in any letter case. Any casing of those two values is accepted.",
 I,"every proof type, header type and token","Tests use exact-case values; one wrong header type.",[CI,RQ,JW],[("proof type","CredentialRequestProof::validate"),("header type","ProofJwtHeader::validate"),("calls",EVC+", "+PRE+", "+SUC)],["Results of the three operations"])
p("C16","Proofs that are unsigned or symmetrically signed are refused",
 "No credential request whose proof header declares the algorithm 'none' or a symmetric (HMAC) algorithm is pre-evaluated, evaluated or answered successfully; no other declared algorithm is refused by header validation.",
 I,"every declared algorithm","No test uses none or an HMAC algorithm.",[JW,CI],[("algorithm rule","ProofJwtHeader::validate")],["Results of the three operations and of header validation"])
p("C17","Expired or not-yet-valid proofs are refused",
 "A credential request is evaluated successfully only if the proof is within its validity window at the current time: on or after its not-before time when it has one, and strictly before its expiration time when it has one. Verifying a proof on its own obeys the same two bounds, refuses nothing else, and reports the bound that failed together with the current time.",
 ["inputs","schedules"],"every nbf/exp combination and clock reading","Tests use times a minute away, never equality, and never through request evaluation.",[JW,CI],[("window","ProofJwt::verify"),("call",EVC)],["Results of ProofJwt::verify and "+EVC])
p("C18","Credential requests are evaluated only in a supported context",
 "A credential request is never evaluated successfully without a credential offer, with authorization-server metadata, or without a proof, and each of these cases is refused with the error that names it. None of those errors is produced in any other case.",
 I,"every combination of optional arguments","Tests take one combination per case.",[CI],[("context checks",EVC)],["Result of "+EVC])
p("C19","Credential-request refusals are justified",
 "Evaluating or pre-evaluating a credential request is refused only because one of the documented conditions fails for that request: bad metadata, no offer, unsupported server metadata, expired or mismatching nonce, ill-typed, unsigned, unparsable, out-of-window or missing proof, wrong issuer or audience, or an unusable key, signature or key identifier. In particular a request meeting every condition is accepted.",
 I,"every request and context","Tests hold two accepting examples.",[CI,JW],[("all checks",EVC),("all checks",PRE)],["Err values of "+EVC+" and "+PRE])
p("C20","Proof-of-possession material all comes from the one evaluated request",
 "On success, the returned algorithm is the one declared in the proof's header, the public key is the one that the proof's key identifier selects in the supplied DID document, the subject is the DID of that same key identifier, and the credential to issue is the one the request asked for. None of these is taken from another document, header or request field.",
 I,"every accepted request and DID document","Two accepting examples with a single key each.",[CI,JW],[("assembly",EVC),("key selection","ProofJwtHeader::extract_key_and_alg")],["Ok value of "+EVC])
p("C21","The signature and message to verify are the segments that were received",
 "For an accepted proof token the returned signature is the token's third segment and the returned message is its first two segments joined by a dot, both exactly as received and for every token content (including claims that contain dots). They do not depend on how the library would re-serialise the token.",
 I,"every proof token","The only test uses a token whose claims contain no dot and pins today's re-serialised form.",[JW,CI],[("signature","ProofJwt::extract_signature"),("message","ProofJwt::to_signable_message")],["Ok value of "+EVC])
p("C22","Pre-evaluation returns exactly the DID of the proof's key identifier",
 "Pre-evaluating a request returns the DID part of the proof's key identifier, returns no DID only when there is no proof or its header carries no key, and is refused when the key is given as jwk or x5c or the identifier is not a DID URL. Evaluation of the same request names the same DID as subject.",
 I,"every request","One test with one DID.",[CI,JW],[("did","ProofJwt::extract_did"),("call",PRE),("call",EVC)],["Result of "+PRE])
p("C23","Key extraction returns public key material only, or refuses",
 "The key bytes returned for a proof are the public key of an octet key pair, or the x coordinate of an elliptic-curve key used with EdDSA; private or symmetric key material is never returned. Every other key kind or algorithm is refused, and a missing x coordinate is reported as such.",
 I,"every JWK kind and algorithm","Tests use two key kinds.",[JW],[("key extraction","ProofJwtHeader::jwk_to_public_key_bytes")],["Ok/Err value of key extraction"])
p("C24","Compact tokens are split into header, body and signature by position",
 "Parsing a compact proof token takes the header from the base64url text before the first dot, the body from the base64url text between the first and second dots and the signature, unchanged, from the text after the second dot (absent when there is none). Text with fewer than two or more than three segments is refused, and text with two or three well-formed segments is accepted.",
 I,"every string","Tests parse three strings, none with extra segments.",[JW,BA],[("splitting","ProofJwt::from_str"),("codec","base64url::decode")],["Result of parsing"])
p("C25","Every error has its own stable documented numeric code",
 "The numeric code reported for an error is the documented one: validation 1; credential issuer 100-112 in declaration order; proof token 300-316 in declaration order; access token 400-407 and 409. No two kinds of error share a code, and reading a code is defined for every error type that offers it.",
 ["inputs","programs"],"every error kind","Tests check the codes of four error kinds.",[VA,CIE,JWE,ATE,MA],[("discriminants","error enums"),("read","error_impl! code()")],["information().code"])
p("C26","A return object holds a result or an error, faithful to the original",
 "Turning a result into a return object gives the success value and no error for a success, and no value and the error's own code, name, description and details for a failure, with no warnings in either case. Adding a warning appends it after the warnings already there and leaves value and error unchanged.",
 I,"every result and every warning history","No test covers return objects with warnings, few cover errors.",[RO,MA,ER],[("conversion","to_return_object"),("information","information()"),("append","add_warning")],["ReturnObject, ErrorInformation"])
p("C27","The issuer's secrets never appear in a token refusal",
 "No refusal of a token request contains the expected user PIN or the offer's pre-authorized code, or any value computed from them other than the outcome of comparing them with the request.",
 I,"every refused request","Tests compare a few error values only.",[AT,ATE],[("error construction",EVT)],["Err value of "+EVT])
p("C28","No input can make the library panic",
 "No public operation of the library panics, overflows, indexes out of bounds or reaches code declared unreachable, for any argument values. In particular malformed tokens, extreme timestamps and lifetimes, and unusual DID documents lead to an error value.",
 I,"every public function and every argument value","Tests sample well-formed and mildly malformed inputs.",[AT,CI,JW,CR,RQ,MD,MA,ER,RO,VA,BA],[("panic-capable sites","whole crate")],["absence of panic"])
p("C29","Every operation is a function of its arguments and the current time only",
 "Operations keep no state between calls and perform no input or output: no files, network, environment, processes, threads, globals or randomness; equal arguments give equal decisions except through the current UTC time. The current time influences only the expiry and validity-window decisions and the timestamps returned or reported.",
 ["histories","inputs","schedules"],"every sequence of calls","Tests are single calls.",[AT,CI,JW,CR,RQ,MD],[("effects","whole crate")],["results over call histories"])
p("C30","Offer JSON uses the specified parameter names and omits absent grants",
 "The JSON of a credential offer has exactly the members credential_issuer, credentials and grants; grants holds authorization_code and/or the pre-authorized-code URN for precisely the grants that are present, with members issuer_state, and pre-authorized_code and (when set) user_pin_required respectively; an id entry is a plain string and an embedded entry an object. Reading accepts the names that writing produces and puts each in the same field.",
 I,"every offer","Two literal URLs.",[CI],[("writer and reader tables","serde impls")],["serialised offer"])
p("C31","OAuth error codes have one wire string each, the same in every conversion",
 "Each token and credential error code has exactly one string form, the one in the specification (invalid_request, invalid_grant and so on); serialising, converting to text, parsing from text and deserialising all agree on it, no two codes share a string, and no other string is accepted.",
 I,"every code and every string","Tests check the conversions for listed strings but never the serialised form.",[ATC,CIC,TT],[("tables","From, TryFrom, Serialize, Deserialize impls")],["serialised responses, conversions"])
p("C32","Each credential format has one identifier everywhere",
 "The four credential formats are identified as jwt_vc_json, jwt_vc_json-ld, ldp_vc and mso_mdoc, by the same string in serialised profiles, in parsing of profiles and in the format of credential responses; no other identifier is accepted and no two formats share one.",
 I,"every profile","Three deserialisation examples.",[CR,CI],[("tables","get_format_name and serde impls")],["serialised profiles and responses"])
p("C33","Issued credentials are encoded as their format requires",
 "In a credential response an ldp_vc credential appears as a JSON object, the credential itself, and a jwt_vc_json, jwt_vc_json-ld or mso_mdoc credential as a JSON string, the unpadded base64url text of that credential's JSON. No other wrapping object or form is emitted and no credential is changed on the way.",
 I,"every credential","One test per two formats, on the in-memory value only.",[CR,CI,BA],[("conversion","TryFrom<CredentialFormatProfile>"),("writer table","Serialize impl")],["serialised credential response"])
p("C34","Offer and token request agree on grant-type and parameter names",
 "The identifiers under which an offer announces its grants are exactly the grant_type values accepted in token requests (authorization_code and urn:ietf:params:oauth:grant-type:pre-authorized_code), and the code announced in an offer as pre-authorized_code (with a hyphen) is read from a token request parameter of the same name; the PIN is read from user_pin. Writing a request and reading it back use the same names.",
 I,"every grant","No test serialises a token request.",[AT,CI],[("tables","serde impls of grants and grant type")],["serialised offers and token requests"])
p("C35","Proof tokens use the registered header and claim names",
 "A proof token's header members are typ, alg and one of kid, jwk, x5c, its claims are iss, aud, sub, iat, nonce, nbf and exp, and algorithms carry their registered names; each is read into, and written from, the value with that meaning, and absent optional iss, nbf, exp and key members are omitted when written.",
 I,"every token","Literal tokens with a few claims.",[JW],[("writer and reader tables","serde impls")],["parsed and serialised tokens"])
p("C36","Issuer metadata uses the specified member names",
 "Issuer metadata and the supported-credential, display, logo and claim objects in it are read and written under the member names of the specification (among them cryptographic_binding_methods_supported, cryptographic_suites_supported, credentialSubject, value_type and @context), every member in the field of that meaning; unknown top-level members are kept and absent optional claim members omitted.",
 I,"every metadata document","Three literal documents, none compared on output.",[MD,CR],[("writer and reader tables","serde impls")],["parsed and serialised metadata"])
p("C37","Responses and requests use the specified member names",
 "Token responses, credential responses, error responses, credential requests and their proofs are written (and where readable, read) under the member names of the specification, each value under the name with its meaning; additional error details are merged into the error object itself, and an absent proof type is read as jwt.",
 I,"every response and request","No test serialises a response.",[AT,CI,ERR,RQ],[("writer and reader tables","serde impls")],["serialised responses, parsed requests"])
p("C38","Building a credential list keeps every item, in order and kind",
 "Converting strings, profiles or existing items into a credential list gives one entry per item in the same order; text becomes an identifier with exactly that text, a profile becomes an embedded credential equal to it, and an existing item is kept as it is.",
 I,"every list","Tests convert one-element lists.",[CI],[("conversions","From impls for CredentialOrId(s)")],["CredentialOrIds value"])
p("C39","Base64url text is unpadded URL-safe base64 in both directions",
 "The codec used to read token segments and the one used to write encoded credentials are the same unpadded URL-safe base64 variant, applied once to exactly the given bytes; malformed text yields an error, never data.",
 I,"every byte string","One round trip of one string.",[BA,JW,CR],[("codec","base64url")],["decoded segments, encoded credentials"])
p("C40","A pre-authorized code is redeemed at most once",
 "A given pre-authorized code leads to at most one accepted token request over the life of the issuer.",
 ["histories"],"every history of requests","Needs histories; tests are single calls.",[AT],[("caller's responsibility",EVT)],["accepted requests over time"])
p("C41","Serialised values read back as the same value",
 "Every offer, request, response, metadata document and token that is serialised and read back equals the original, and an offer extracted from its URL equals the offer.",
 I,"every value","A handful of literals.",[CI,JW,CR,MD],[("serde","all wire types")],["round trip"])
p("C42","An accepted proof is cryptographically valid once its signature verifies",
 "When the returned signature verifies over the returned message under the returned key and algorithm, the holder of the key signed the received proof token.",
 I,"every token and key","Cryptographic.",[JW],[("third-party cryptography",EVC)],["verification by the caller"])
p("C43","Return objects, evaluation results and options keep their JSON names",
 "The JSON of a return object has exactly the members info, error and warnings, each present exactly when the value has it; an error in it has code, name, description and, when present, additional_information, and the text form of an error is that same JSON. Evaluation results have the members did (pre-evaluation), or proof_of_possession, subject_id and credential, with algorithm, public_key, message and signature inside the proof. A c_nonce (c_nonce, c_nonce_expires_in), the evaluation options (c_nonce with c_nonce_expires_in, expected_c_nonce and c_nonce_created_at; client_id; expected_user_pin) and a proof token value (header, body, signature) are read and written under those names, each value under the name with its meaning.",
 I,"every value of these types","No test serialises a return object, an evaluation result or options.",[RO,ER,CI,AT,JW],[("writer and reader tables","serde impls"),("text","Display for ErrorInformation")],["serialised return objects, results and options"])
p("C44","The access token type is Bearer in every conversion",
 "The one supported access token type is written as Bearer in JSON and in text, and reading JSON or text accepts exactly that string for it and refuses every other string.",
 I,"every string","One literal is tested.",[TT],[("tables","serde impls, From, FromStr or TryFrom")],["serialised token type"])
p("C45","The library's unsafe code cannot cause undefined behaviour",
 "Memory reinterpreted through a raw pointer is only ever a defined integer discriminant of the type read, no operation whose safety rests on an unchecked assumption (unchecked UTF-8, unchecked unwrap or indexing, unreachable hints) is reachable from a public function with that assumption false, and no type is declared safe to share between threads by hand.",
 ["inputs","programs"],"every public function and every argument value","A layout mismatch can read the right value by accident; tests cannot show its absence.",[MA,JWE,ATE,CIE,VA],[("unsafe blocks and calls","whole crate"),("discriminant read","error_impl! code()")],["absence of undefined behaviour"])
p("C46","A refusal reports the failure that caused it",
 "The additional information of an error holds the values of that error, each under the name of its field, and for an error that wraps another one the wrapped error's own details; converting an error into another error type keeps it (or its text). Every refusal caused by a failed operation (parsing, decoding, resolution, serialisation, a nested check) carries that failure or its text. The kid, DID, key or token named in the details of a proof-key error is the one of the refused token.",
 I,"every refusal","Tests compare a handful of error values.",[CIE,JWE,ATE,VA,MA,ER,JW,CI],[("details","error_impl! and Serialize impls"),("conversions","From impls of the error types"),("construction","map_err closures")],["Err value, information().additional_information"])
p("C47","Readers ignore unknown members and require exactly the required ones",
 "Reading any JSON document of the library (offers, grants, requests, proofs, responses, metadata, proof tokens, options) ignores members it does not define, accepts a document from which any optional member is absent, and refuses one from which a required member is absent (only the proof type has a default).",
 I,"every document","Tests parse about twenty literal documents, none with unknown members except where kept.",[AT,CI,JW,CR,RQ,MD],[("readers","Deserialize impls")],["Result of reading JSON"])
p("C48","Equality and copies are structural",
 "Two values of a library type compare equal exactly when they are of the same kind and all their parts are equal, and a copy of a value equals it in every part.",
 I,"every value of every public type","No test compares values differing in one part, or copies.",[AT,CI,JW,CR,RQ,MD],[("equality","PartialEq impls"),("copies","Clone impls")],["==, clone()"])
p("C49","Every kind of error has its own name and description",
 "The name reported for an error is that of its kind. Its description is a non-empty text of its own, shared with no other kind of the same error type, or the description of the error it wraps; values mentioned in a description are those of the error itself, each in its place (the expiry as the expiry, the current time as the current time).",
 I,"every error value","Tests compare the names of four kinds and no description.",[ATE,CIE,JWE,VA],[("descriptions","Display impls"),("names","AsRef<str> impls")],["information().name, information().description"])
p("C50","Constructors keep what they are given",
 "A credential offer made from an issuer, a credential list and the two optional grants holds exactly those; a credential list made from items holds exactly those; error information made from a code, a name, a description and optional details holds exactly those.",
 I,"every argument value","Tests construct a few values and compare none of them in full.",[CI,ER],[("constructors","CredentialOffer::new, CredentialOrIds::new, ErrorInformation::new")],["constructed values"])
p("C51","Every operation comes to an end",
 "No public operation of the library loops or calls itself for ever: for any argument values every operation (and every reading, writing, displaying, comparing or copying of its types) returns a value or an error after finitely many steps.",
 I,"every public function and every argument value","A test that hangs never reports; the tests sample values on which every loop ends.",[AT,CI,JW,CR,RQ,MD,MA,ER,RO,VA,BA],[("loops and recursive calls","whole crate")],["termination"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
