"""Writes /verif/properties.jsonl (the source of truth is this table)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": ["src/oidcmsg/" + f for f in files],
         "mechanism": [{"name": n, "where": "src/oidcmsg/" + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": "src/oidcmsg/" + w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MSG = "message.py"
p("M01", "Form-urlencoded round trip of any message",
  "Serializing a message to application/x-www-form-urlencoded and parsing the result with the same message class gives back every parameter: text unchanged, numbers and booleans as their text, objects and lists of items without spaces as the same object or list, language tagged (name#tag) parameters treated like the untagged one, unknown parameters kept; parameters without a value (null) are not sent. Serializing refuses a message lacking a required parameter unless it is marked lax; parsing refuses a repeated single-valued parameter and non-empty input that holds no parameter at all.",
  ["inputs"], "all message classes of the OAuth2, device, OIDC and session modules; all parameter sets and non-empty text values (including reserved characters and non-ASCII) of their declared types, plus unknown and language tagged parameters",
  "The tests round-trip a few fixed messages with ASCII values; escaping, list and tag handling must hold for every class and value.",
  [MSG, "oauth2/__init__.py", "oidc/__init__.py"], [("Message.to_urlencoded/from_urlencoded", MSG), ("list and sp_sep list (de)serializers", MSG)],
  observe=["to_urlencoded(), from_urlencoded(), serialize(), deserialize()"])
p("M02", "JSON and dictionary round trip of any message",
  "Converting a message to JSON or to a plain dictionary and back with the same message class gives an equal message, with value types (text, integer, boolean, list, object) and nested messages (address, links, claims requests, identity documents) preserved, and the JSON text is a JSON object that a standard parser reads to the same content as the dictionary form. The dictionary form holds no message objects, directly or in lists, and serializing never changes the message itself.",
  ["inputs"], "all message classes, all values of the declared types, arbitrary JSON-compatible unknown parameters, nested messages, any JSON indentation",
  "Tests check a handful of literals; nesting, unicode, null and unknown parameters form an unbounded input space.",
  [MSG, "oidc/__init__.py", "oidc/identity_assurance.py"], [("Message.to_dict/from_dict/to_json/from_json", MSG), ("nested (de)serializers", "oidc/__init__.py")])
p("M03", "Parameter values always have their declared type",
  "Whichever way a message gets its values (constructor, dictionary, JSON, item assignment), a value of a parameter with a declared type ends up having that type or is refused: integers are accepted as integers or decimal text (fractions being cut off), booleans never stand in for text or integers, single text values for lists are split on spaces, object values are accepted as objects or JSON text of one, and lists may hold only elements of the declared type. Blank values (empty text, a list with one empty text) and empty lists leave the parameter unset when a message is built, and unknown parameters are kept as they are.",
  ["inputs"], "every class and parameter crossed with values of every JSON type, right and wrong (null leaves a single-valued parameter null)",
  "The tests try a few wrong types on a few parameters; the claim is about every parameter and every wrong value.",
  [MSG], [("Message._add_value", MSG), ("Message.from_dict, __setitem__", MSG)])
p("M04", "verify() accepts exactly the messages the specifications allow",
  "For every message class verify() refuses a message in which a required parameter is missing or empty, or a parameter with a fixed set of allowed values has any other value (in any list position), and otherwise, rules of the particular message aside, returns True. Unknown parameters never make verify() fail, and verify() of such a message does not change it (a JWT-secured request is judged by the parameters of its request object, and not at all if it only refers to one).",
  ["inputs"], "every message class; every subset of its required parameters; allowed, disallowed and near-miss values for enumerated parameters",
  "Tests cover some required parameters of some classes; the specification table has about 60 classes and several hundred parameters.",
  [MSG, "oauth2/__init__.py", "oauth2/device_authorization.py", "oidc/__init__.py", "oidc/session.py"], [("Message.verify and the parameter tables", MSG), ("verify overrides", "oidc/__init__.py")])
p("M05", "A message behaves as a mapping over any history of operations",
  "After any sequence of operations (assignment, deletion, update, building from dictionaries, defaults, weed, blank removal, copy) a message holds exactly the keys and values a reference mapping holds; reading, iteration, length, membership, equality, extra-parameter queries and lists of known/required parameters agree with it. Setting defaults never overwrites a present value, weed removes exactly the unknown parameters, and two messages are equal iff they are of the same type and hold equal content.",
  ["histories", "inputs"], "all operation sequences over all message classes, with known, unknown and language tagged keys",
  "Unit tests call each method once on a fresh instance; interaction of operations is a history property.",
  [MSG], [("Message mapping interface", MSG)], [("_dict", "the parameters present in the message", MSG)])
p("M06", "Messages and message classes never share state",
  "Nothing done to one message (constructing with other arguments, changing values obtained from it in place, parsing, verifying, copying and changing the copy) changes the content, the defaults or the verification outcome of any other message or of any later created message. Defaults of a class are the same for every new instance throughout the life of the process.",
  ["histories"], "all interleavings of create/mutate/verify/copy operations over instances of related message classes, each built from argument objects of its own",
  "Tests look at one instance at a time; leaks need a history involving several instances and mutable values.",
  [MSG, "oidc/__init__.py", "oauth2/__init__.py"], [("default handling in Message.__init__ and set_defaults", MSG), ("class level parameter, default and allowed value tables", "oidc/__init__.py")],
  [("c_default, c_allowed_values, c_param", "class level tables shared by all instances", MSG)])
p("M07", "Request URLs carry exactly the message and keep the target URL",
  "Adding a message to a URL keeps everything that was in the URL, places the message's parameters in the query (extending an existing query) or in the fragment when asked to, and parsing that part of the URL with the message class gives back the message's parameters together with those already in the query.",
  ["inputs"], "all target URLs with and without query, all messages, both placements",
  "Tests check two literal URLs; escaping and pre-existing queries are an input-space claim.",
  [MSG], [("Message.request", MSG)])
p("M08", "Message factories give exactly the named message",
  "Asking the OAuth2 or the OIDC message factory for a message by name returns an instance of exactly the class with that name in that module, filled with the given parameters as its constructor would; the OIDC factory falls back to the OAuth2 message for names it does not know itself, and unknown names give None, never some other class.",
  ["inputs"], "all message names, near-miss names and parameter sets for both factories",
  "Tests use a few names; the claim covers all names including near misses and shadowed names.",
  ["oauth2/__init__.py", "oidc/__init__.py"], [("factory", "oauth2/__init__.py"), ("factory", "oidc/__init__.py")])

p("M09", "Message classes of an application behave as their specification says",
  "A message class an application defines from the predefined parameter specifications, alone or on top of a copy of those of an existing class, keeps every promise of the shipped ones: its messages survive form encoding (lists, objects, nested messages, lists of messages or objects and parameters covered by a wildcard specification included), JSON, dictionaries, JWS and JWE with declared types; ill typed values are refused; verify() refuses missing required and not allowed values before any check the class adds; defaults are given to each new message, never shared and never override given values; parameter lists, extras, schema filters and non-standard additions follow the specification. Defining and using such a class changes nothing in the class it builds on.",
  ["inputs", "configurations"], "classes composed of all predefined specifications, own and inherited parameters, defaults, allowed values and wildcards x contents",
  "The tests define three or four fixed classes; extension is documented for any combination of specifications.",
  [MSG], [("Message", MSG), ("by_schema/add_non_standard", MSG)])

p("M10", "How content arrived and what was asked before do not matter",
  "The same parameters given to a message by constructor, dictionary, JSON, unsigned JWT, item by item, by update, as a copy, in any order, or taken over from another message (and, for text values, by form) give messages with the same content, to which verification gives the same answer: accepted, or refused for the same kind of reason. Verifying again gives that answer again, and verification never changes or removes a parameter the message had, whatever the answer (only a request object takes the place of what is around it); what it adds depends on the content only.",
  ["inputs", "histories"], "all message classes; valid content, and content with parameters dropped, added, replaced or tagged; all ways in; verification arguments",
  "Each test uses one way in and verifies once.",
  [MSG, "oauth2/__init__.py", "oidc/__init__.py", "oidc/session.py", "oidc/identity_assurance.py"], [("from_dict, from_json, from_jwt, from_urlencoded, __setitem__, update, copy, verify", MSG), ("verify of the message classes", "oidc/__init__.py")])

p("M11", "Whatever is taken in can be passed on",
  "Any JSON text is taken in as exactly the object a standard parser reads from it, or refused; text that is not a JSON object is refused and leaves the message empty. Whatever was taken in, nulls and misplaced values included, can be turned into a dictionary, JSON, form, text, an unsigned JWT and a copy without failing and without changing the message, and dictionary and JSON are taken in again as the same content. What is taken in from any form-encoded text is what a standard form parser reads, and the same after being encoded and parsed again.",
  ["inputs"], "all message classes; JSON objects with values of any type in any parameter, damaged JSON, arbitrary text; form-encoded text, well formed or not",
  "Tests parse well formed samples; what senders get wrong is an unbounded set.",
  [MSG, "oidc/__init__.py", "oidc/identity_assurance.py"], [("Message.from_json, from_urlencoded, to_dict, to_json, to_urlencoded, to_jwt, copy, __str__", MSG)])
p("M12", "Nested values are the same in whichever form they are given",
  "A nested message or JSON object given to a parameter as a dictionary, as a message, as JSON text, as form text or read from JSON, a form or a token becomes the same content of the declared type, or is refused; it is never stored as something else, and what was given is left as it was. The published (de)serializer functions of the nested types (address, claims, claims requests, registration, links and the identity assurance objects) give applications the same, and refuse text that is no JSON object.",
  ["inputs"], "every parameter that holds a nested message, a list of them or an object; every representation; every way in; every published (de)serializer; texts with characters special in forms or JSON",
  "Tests convert three literal addresses and claims; which representation is mistaken for which depends on the characters in the values.",
  [MSG, "oidc/__init__.py", "oidc/identity_assurance.py"], [("Message._add_value, from_urlencoded", MSG), ("deserialize_from_one_of and the *_deser functions", "oidc/__init__.py"), ("*_deser", "oidc/identity_assurance.py")])

p("J01", "Signed and encrypted JWT round trip of any message",
  "A message packed as a signed JWT and/or encrypted JWE with keys the receiver has comes out of unpacking equal to the original, for every supported signature and encryption algorithm, with the received token and its signature and encryption headers recorded on the message. Plain unsigned (alg none) tokens round trip as well.",
  ["inputs", "configurations"], "messages of all classes with arbitrary JSON content x HS/RS/ES/PS algorithms, key sets and key ids x encryption algorithms",
  "The tests sign a few messages with one or two algorithms.",
  [MSG], [("Message.to_jwt/from_jwt/to_jwe/from_jwe", MSG)])
p("J02", "A forged, altered or wrongly keyed JWT never populates a message",
  "Unpacking a signed token into a message fails whenever its signature does not verify with a key the key jar holds for the token's issuer (altered header, payload or signature, truncation, signature by another key or another issuer's key, symmetric use of a public key, mismatching signature or encryption algorithm when one is demanded), and a failing token leaves no content in the message. When no key at all is available for a signed token it is refused, not accepted unverified. The same holds for a signed token inside an encrypted one, which is refused also when it was altered or encrypted to a key the receiver does not hold.",
  ["inputs", "fault_sequences"], "all alterations of valid tokens: byte changes, part swaps between tokens, header rewrites, signer and key jar combinations",
  "Tests contain a couple of wrong-key cases; forgeries are an unbounded family.",
  [MSG], [("Message.from_jwt", MSG)])
p("J03", "ID Token claims are accepted exactly per OpenID Connect Core",
  "Verifying ID Token claims succeeds exactly when: required claims are present; the issuer equals the expected issuer if one is given; the client is among the audience if a client is given; with several audiences an authorized party is present and among them; an authorized party equals the client if a client is given; the token is not expired (allowing skew); it was not issued longer ago than the nonce storage time (default four hours, allowing skew); and a nonce present in both token and expectation matches.",
  ["inputs", "configurations"], "all claim sets, verification arguments (issuer, client, skew, storage time, nonce) and clock readings, including every boundary second",
  "Tests pick a few times far away from the boundaries and never combine arguments.",
  ["oidc/__init__.py"], [("IdToken.verify", "oidc/__init__.py")])
p("J04", "Messages only accept ID Tokens signed by the expected issuer and algorithm",
  "A message carrying an ID Token or ID Token hint (token response, authorization response, session check, session refresh and end-session messages) verifies only if the token is a JWT that is correctly signed with a key of its issuer known to the key jar and uses the demanded algorithm if one is given, and its claims are acceptable. An unsigned (alg none) token is accepted only when the caller explicitly expects or allows unsigned tokens.",
  ["inputs", "configurations"], "token signer, algorithm, key jar content, verification arguments and carrying message in all combinations",
  "Tests have a handful of positive and negative cases for single message classes.",
  ["oidc/__init__.py", "oidc/session.py"], [("verify_id_token", "oidc/__init__.py"), ("MessageWithIdToken.verify, EndSessionRequest.verify", "oidc/session.py")])
p("J05", "An ID Token binds the access token and the code delivered with it",
  "An authorization response that carries a signed ID Token together with an access token and/or a code verifies only if the ID Token contains the access token hash and/or code hash and each equals the left half of the hash, by the hash function of the token's signing algorithm, of the very value delivered.",
  ["inputs"], "all access token and code values, signing algorithms with 256/384/512 bit hashes, present, absent, swapped, truncated and altered hash claims",
  "Tests use one algorithm and one or two values.",
  ["oidc/__init__.py"], [("verify_id_token hash checks", "oidc/__init__.py")])
p("J06", "Issued ID Tokens are consistent and acceptable to a verifier",
  "Signing an ID Token that was given an access token and/or code stores their left-half hashes by the signing algorithm's hash function instead of the values themselves, stamps the issue time with the current time and, when a lifetime is given, an expiry exactly that much later, leaving all other claims alone. A token issued that way is accepted by a verifier holding the same values, before it expires and not after.",
  ["inputs"], "claim sets, access token and code values, algorithms, lifetimes and clock readings",
  "Tests check hash presence for one algorithm.",
  ["oidc/__init__.py"], [("IdToken.pack, val_hash, to_jwt", "oidc/__init__.py")])
p("J07", "What a message presents as verified was verified in that very call",
  "After verify() returned True, an entry of the message that presents as verified a token this type of message carries (ID Token, ID Token hint, request object, logout token) exists only if the message carried that token and it passed verification in this call, and its content is the content of that token. Entries with such names that were sent by the peer or stem from an earlier verification are dropped or replaced.",
  ["inputs", "histories"], "messages with planted verified-claim entries, repeated verification with changed tokens, all carrying message classes",
  "No test plants such an entry or verifies twice.",
  ["oidc/__init__.py", "oidc/session.py", "oauth2/__init__.py", "__init__.py"], [("clear_verified_claims, verified_claim_name", "oidc/__init__.py")])
p("J08", "JSON Web Token claims are accepted exactly within their validity",
  "Verifying a general JSON Web Token succeeds exactly when it is not expired, not issued in the future, and not used before its not-before time, each compared with the current time allowing the given skew in the token's favour, the expected audience if given is among its audiences, and the expected issuer if given equals its issuer; absent claims impose nothing. Authentication tokens additionally need issuer, subject, audience, token id and expiry.",
  ["inputs", "configurations"], "all combinations of time claims around every boundary second, skews, audiences and issuers",
  "Tests have no boundary cases and no skew.",
  ["oidc/__init__.py"], [("JsonWebToken.verify", "oidc/__init__.py")])
p("J09", "Logout tokens and requests are accepted exactly per the logout specifications",
  "A logout token verifies exactly when it has the required claims, no nonce, an events member holding only the back-channel logout event with an empty object, a subject or a session id, an issue time not in the future (allowing skew), and the expected issuer, audience and signing algorithm where given. A back-channel logout request verifies only if its token is signed by a key of its issuer (unsigned only when explicitly allowed) and is such a logout token. An end-session request that names a post-logout redirect URI is accepted only together with a properly signed ID Token hint, and accepted with neither.",
  ["inputs", "configurations"], "claim sets and mutations of valid logout tokens, verification arguments, clock readings, signers",
  "Tests cover individual violations one at a time with fixed values.",
  ["oidc/session.py"], [("LogoutToken.verify, BackChannelLogoutRequest.verify", "oidc/session.py")])

p("O01", "OIDC authorization requests are accepted exactly per the specification",
  "An OIDC authorization request without request object verifies exactly when the required parameters are present, display and every prompt value are among the defined ones, the scope contains openid, offline_access in the scope comes with consent among the prompts, prompt none is not combined with another value, and a response type containing id_token comes with a nonce, which equals the expected nonce if one is given.",
  ["inputs"], "all combinations of response types, scopes, prompts, display, nonce and expected nonce",
  "Tests check single rules on literal requests.",
  ["oidc/__init__.py"], [("AuthorizationRequest.verify", "oidc/__init__.py")])
p("O02", "Request objects combine with request parameters as the policy says",
  "Merging request object parameters into an authorization request always gives the request object's value for every parameter it contains; of the remaining request parameters the strict policy keeps none, the lax policy all and the whitelist policy exactly the listed ones. Verifying a request carrying a signed request object applies strict (OIDC and JWT-secured requests) or lax (pushed requests) merging and records the verified object, a request object that fails signature verification makes verification fail, a JWT-secured request needs a request or a request_uri, the merged result must itself satisfy the parameter rules, and building an OIDC request object and verifying a request with it reproduces the original parameters.",
  ["inputs", "configurations"], "all pairs of parameter sets, policies, whitelists, signing algorithms and signers",
  "Tests try one example per policy.",
  ["oauth2/__init__.py", "oidc/__init__.py"], [("AuthorizationRequest.merge", "oauth2/__init__.py"), ("request object handling in verify", "oidc/__init__.py"), ("make_openid_request", "oidc/__init__.py")])
p("O03", "OAuth2 responses: mix-up protection and error text rules",
  "An authorization response verifies only if the issuer and client id it contains equal those expected, whenever the caller gives them (for OAuth2 and OIDC responses alike); an OIDC response that names its audience, as one text or a list, verifies for an expected client only if the client is that text or in that list. A response message with an error description verifies exactly when every character of it is in the range RFC 6749 allows (printable ASCII except double quote and backslash), and a message counts as an error message iff it has an error parameter.",
  ["inputs"], "all issuer/client values and near misses, all error description strings",
  "Tests use two or three values.",
  ["oauth2/__init__.py"], [("AuthorizationResponse.verify, ResponseMessage.verify, is_error_message", "oauth2/__init__.py")])
p("O04", "Client registration messages are accepted exactly per the specification",
  "A registration request verifies exactly when required and enumerated parameters are right, an initiate-login URI has the https scheme, no encryption enc value appears without the matching alg (for request objects, ID Tokens and user info), and the token endpoint signing algorithm is not none; verification supplies A128CBC-HS256 as enc where only the alg is given and changes nothing else. A registration response verifies only if it has a client id and either both or neither of the registration access token and the client configuration URI.",
  ["inputs"], "all combinations of the related parameters with arbitrary other metadata",
  "Tests check one violation at a time.",
  ["oidc/__init__.py"], [("RegistrationRequest.verify, RegistrationResponse.verify", "oidc/__init__.py")])
p("O05", "Provider configuration is accepted exactly per OIDC Discovery",
  "Provider metadata verifies exactly when required parameters are present, advertised scopes contain openid and use only the scope characters of RFC 6749, the issuer is an https URL (any scheme if http is explicitly allowed) without query and fragment, RS256 is among the ID Token signing algorithms, and a token endpoint is present if any response type involves code; new metadata starts from the defaults of the specification, which given values override.",
  ["inputs"], "all metadata sets, issuers with every URL component, scope strings over the full character range",
  "Tests use literal provider documents.",
  ["oidc/__init__.py"], [("ProviderConfigurationResponse.verify, check_char_set", "oidc/__init__.py")])
p("O06", "User info and ID Token personal claims are checked as documented",
  "Personal claims verify exactly when the subject is present, a birthdate is YYYY-MM-DD, YYYY or 0000-MM-DD naming an existing date, the error description rule holds, and no claim is null (null makes verification return False); e-mail/phone verified flags must be booleans and the update time an integer.",
  ["inputs"], "all claim sets, birthdate strings valid and near-valid, null placements",
  "Tests have a few literals.",
  ["oidc/__init__.py"], [("OpenIDSchema.verify", "oidc/__init__.py")])
p("O07", "Claims requests survive transport and match as OIDC Core 5.5.1 says",
  "A claims request parameter embedded in an authorization request comes out equal after form-urlencoded, JSON and JWT transport, including null entries. A claim value matches a claim specification iff the specification is null or names neither a value nor values (an essential flag and other members constrain nothing), or the value equals its value or is among its values.",
  ["inputs"], "all claims requests and all values/specifications over JSON values",
  "Tests use one or two literals.",
  ["oidc/__init__.py"], [("claims (de)serializers", "oidc/__init__.py"), ("claims_match", "oidc/__init__.py")])

p("O08", "Device authorization grant messages follow RFC 8628",
  "A device authorization request verifies exactly when it names a client; the response exactly when device code, user code, verification URI and life time are there; an access token request exactly when it has a grant type and either a device code with a client id or, without a device code, a code with a redirect URI, and any client assertion type is the JWT bearer one. verify() changes none of them, they come out of form and JSON transport as put in, and the token request built from the response to a request verifies on both sides.",
  ["inputs", "configurations"], "all presence combinations of the parameters x texts x transports; complete request, response, token request flows",
  "The tests do not touch the device grant.",
  ["oauth2/device_authorization.py"], [("AuthorizationRequest/AuthorizationResponse/AccessTokenRequest", "oauth2/device_authorization.py")])

p("I01", "ISO 8601 timestamps denote the instant they were made from",
  "Formatting seconds since the epoch or a date-time as an identity assurance timestamp and reading it back gives the same instant to the second, whatever the time zone of the process and whichever side of a daylight saving change the instant is on; dates are the local calendar date of the instant. Timestamps that already are ISO 8601 text pass through messages unchanged.",
  ["inputs", "configurations"], "all instants from 1970 (0 included) to 2100 crossed with time zones including DST and half hour zones",
  "Tests format the current time in UTC only.",
  ["oidc/identity_assurance.py"], [("to_iso8601_2004, from_iso8601_2004 and (de)serializers", "oidc/identity_assurance.py")])
p("I02", "Identity evidence is verified as the kind of evidence it is",
  "Evidence verifies exactly when its type is a known one (identity document, utility bill, QES) and every member that type requires is present, or, lacking a type, when it has all members of one of them, in which case that type is recorded; any other evidence is refused, and verification always terminates.",
  ["inputs"], "evidence objects with all subsets of members of the three kinds, types known, unknown and absent",
  "Tests never verify evidence objects directly.",
  ["oidc/identity_assurance.py"], [("Evidence.verify", "oidc/identity_assurance.py")])
p("I03", "Verified-claims requests accept only well formed constraints",
  "A verified-claims request verifies exactly when each requested member is null or states an essential flag that is true, false or null, value and values of the member's type, and a purpose of 3 to 300 allowed characters, at every nesting level of the declared members of verification, its evidence and the claims; a claims constructor accepts exactly values of the member's declared type (or constructors for it) and renders exactly what was put in.",
  ["inputs"], "all request trees over the verification and claims members, well formed and with one defect anywhere",
  "Tests verify well formed samples only.",
  ["oidc/identity_assurance.py"], [("verify_claims_request, _verify_claims_request_value", "oidc/identity_assurance.py"), ("ClaimsConstructor", "oidc/identity_assurance.py")])

ab = "storage/abfile.py"
p("S01", "The file store is a persistent dictionary",
  "After any history of set, delete, update, clear and re-open operations a file store holds exactly the keys and values a dictionary would hold: reads (with and without default), membership, key and item listing, iteration, and length agree with it, for any text keys and any values the value converter handles, and reading a missing key raises KeyError. A value that cannot be serialized is refused and leaves the stored value as it was.",
  ["histories", "inputs"], "all operation histories with arbitrary text keys (separators, dots, percent signs, non-ASCII) and JSON or text values, with re-opening at any point",
  "There is no unit test of the file store at all, only indirect use by one context test.",
  [ab, "storage/converter.py"], [("AbstractFileSystem", ab), ("QPKey, JSON, PassThru", "storage/converter.py")],
  [("storage, fmtime", "cache of the directory and modification times", ab)])
p("S02", "All users of one file store directory see each other's changes",
  "When several store objects or processes use the same directory, a read, key listing, membership test or length through any of them reflects the latest completed write or deletion made through any other (as soon as file modification times tell the versions apart), and a reader never sees a partly written value. While the content of a file cannot be read no store object answers with what it held before, and once it can every one answers with it, also when the clock was set back in between.",
  ["histories", "schedules"], "interleavings of operations over two or three handles on one directory, and concurrent writer/reader processes with large values",
  "No test opens the same directory twice.",
  [ab], [("is_changed, synch, FileLock use", ab)], [("fmtime", "last seen modification time per file", ab)])
p("S03", "Keys cannot reach outside the store directory or collide",
  "Whatever text is used as a key (path separators, parent references, absolute paths, escapes), operations of a file store create, read, change or delete files only inside its own directory, and different keys never share a value. Keys that cannot be stored are refused.",
  ["inputs", "histories"], "all text keys including path traversal shapes and percent-encoded look-alikes, all operations",
  "No test uses an unusual key.",
  [ab, "storage/converter.py"], [("QPKey", "storage/converter.py"), ("AbstractFileSystem path building", ab)])
p("S04", "Labelled stores sharing a backing store are isolated name spaces",
  "Stores that share one backing directory under different labels each behave as their own dictionary: setting, updating and deleting through one never changes what another sees, key listing, iteration, items and length show exactly the entries stored under that label with the original keys, and missing keys give the default. The in-memory labelled dictionary behaves likewise.",
  ["histories"], "operation histories over several labels and arbitrary keys, including keys and labels that resemble each other's prefixes",
  "No test uses two labels.",
  [ab, "storage/extension.py"], [("key_label, LabeledDict", "storage/extension.py"), ("LabeledAbstractFileSystem", ab)])
p("S05", "Context information and keys persist per issuer",
  "What is set in an OIDC context is what is read from it (messages as their dictionary form, the seed as bytes), with a configured database also after the context is created anew, and contexts of different issuers sharing one configuration never see each other's information. Creating a context leaves the given configuration unchanged, and keys given by configuration are available under the empty owner and the entity id.",
  ["histories", "configurations"], "set/get/re-create histories over several issuers, JSON values and messages, with in-memory and file databases",
  "The context tests only count key owners.",
  ["context.py", "storage/init.py"], [("OidcContext, add_issuer", "context.py"), ("init_storage, get_storage_conf, storage_factory", "storage/init.py")])
p("S06", "The SQL store is a persistent dictionary",
  "After any history of set, update and delete operations, through one or several connections, the SQL store holds for every key exactly the last value set: reads, membership, listing, iteration and counts of deleted entries agree with a dictionary, missing keys read as None, updating a missing key changes nothing, and a refused value leaves the stored one as it was.",
  ["histories"], "operation histories over two connections with arbitrary text keys and values and re-opening",
  "There is no unit test of the SQL store.",
  ["storage/absqlalchemy.py", "storage/db_setup.py"], [("AbstractStorageSQLAlchemy", "storage/absqlalchemy.py")])
p("S07", "An interrupted or refused write costs no stored value",
  "When a process that writes to a file or SQL store is killed at any point, or an operation fails because the disk is full, the directory cannot be written or the database is in use by somebody else, every key afterwards holds either its previous value or the one being written (exactly the previous one, if an operation on a single key failed), keys not concerned are as they were, no other keys appear, and the store remains usable: by the one whose operation failed, by those who had it open, and by those who open it.",
  ["crash_points", "fault_sequences", "histories"], "operations crossed with prior contents, crash points at every bytecode of the storage code, file size limits at any byte, refusing directories and locked databases",
  "No test interrupts an operation or lets one fail.",
  [ab, "storage/absqlalchemy.py"], [("AbstractFileSystem.__setitem__, update, __delitem__, clear", ab), ("set, update, delete", "storage/absqlalchemy.py")])
p("S08", "Operations of processes sharing a store each take effect at one moment",
  "When several processes use one directory or one SQL table at the same time, what their reads, membership tests, listings, writes, updates, deletions and openings report can, for each key, be explained by every operation having taken effect at one moment between its start and its end, and a store opened afterwards shows the outcome of the last of them. No operation fails because of what another process does meanwhile (an item that is gone is reported as missing; a locked database may refuse a write, which then has no effect), nothing listed is incomplete or appears twice, and nobody waits for ever.",
  ["schedules", "histories"], "all interleavings of the operations of two or three processes at every step of the storage code, prior contents, warm and cold caches, also before the directory exists",
  "Tests use one process; threads and processes scheduled by the operating system rarely meet in the narrow places.",
  [ab, "storage/absqlalchemy.py"], [("is_changed, _read_info, synch, __setitem__, _delete_file", ab), ("set, update, delete", "storage/absqlalchemy.py")])

p("T01", "Time comparisons and time strings agree with the UTC clock",
  "Relative times (so much from now or ago, as date-time, text or epoch seconds) equal the current UTC time plus or minus the given amount, the text form parses back to the same second (fractions allowed and dropped), and before/after/later-than style comparisons order any two points, given as text, epoch seconds or time structures, by time with the documented boundary behaviour, independent of the process time zone.",
  ["inputs", "configurations"], "all instants, offsets in all units, formats of points, time zones and clock readings including exact equality",
  "Tests use now +/- large offsets in UTC.",
  ["time_util.py"], [("str_to_time, before, after, later_than, in_a_while, utc_time_sans_frac", "time_util.py")])
p("T02", "Durations are parsed and added as XML Schema defines",
  "Parsing a duration yields the sign and exactly the years, months, days, hours, minutes and seconds written in it, any component may be left out, and malformed durations are refused. Adding a positive duration gives the UTC point in time XML Schema's dateTime addition defines, carrying seconds into minutes, hours, days, months and years, whatever the process time zone (two deviations the test suite insists on, for durations of 0 and of more than 28 days, are recorded as known findings).",
  ["inputs"], "all durations of the XML Schema grammar and malformed variants; start times 1970-2100; process time zones",
  "Tests use four durations.",
  ["time_util.py"], [("parse_duration, add_duration, modulo, f_quotient", "time_util.py")])
p("U01", "Configured paths are normalized and based correctly",
  "Normalizing a path gives a relative path that starts with ./, continues with what follows leading dots and slash, and ends with /, and does not change when normalized again. Applying a base path to a configuration prefixes exactly the listed relative paths, at any nesting, and leaves absolute paths, unlisted entries and missing entries alone.",
  ["inputs", "configurations"], "all path strings; all configuration trees and item lists",
  "There is no test of either function.",
  ["__init__.py"], [("proper_path, add_base_path", "__init__.py")])
p("U02", "Names in configurations import exactly what they name",
  "The name of a class or function, written module.Name or module:Name with a module of any depth, imports that very object, and the qualified name given for a class or function imports it again; a name that is malformed or names nothing is refused, never resolved to something else. The handler and the converters a storage configuration names are the ones the store uses.",
  ["inputs", "configurations"], "all modules and attribute names, both notations; malformed names",
  "The tests import a handful of fixed names of the library.",
  ["storage/utils.py", "storage/init.py", "storage/abfile.py"], [("modsplit, importer, qualified_name", "storage/utils.py"), ("storage_factory", "storage/init.py")])


out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fp:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        fp.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
