"""Specification table: the oracle for which parameters a message has.

Frozen: written down from the code at the pinned commit, then reviewed against RFC 6749, 7662, 8693,
8417, 8628, 9101, 9126, 7033, OIDC Core, Discovery, Registration, Session, Back-Channel Logout and
the identity assurance draft.  No check reads the tables of the code under test.

Codes: s text, i integer, b boolean, L list of texts, S list of texts sent space separated,
J object (sent as JSON text), D object, A address, M message, C claims request, Q claims member,
T ID Token (a JWT), K list of links, E list of evidence, t time stamp, X:cls identity assurance
object; ! = required, ~ = may be null.
D line = defaults, A line = allowed values.
"""
import ast

TABLE = r'''
oauth2:ResponseMessage
    error=s error_description=s error_uri=s
oauth2:AuthorizationErrorResponse
    error=s error_description=s error_uri=s state=s
   A {'error': ['invalid_request', 'unauthorized_client', 'access_denied', 'unsupported_response_type', 'invalid_scope', 'server_error', 'temporarily_unavailable']}
oauth2:TokenErrorResponse
    error=s error_description=s error_uri=s
   A {'error': ['invalid_request', 'invalid_client', 'invalid_grant', 'unauthorized_client', 'unsupported_grant_type', 'invalid_scope']}
oauth2:AccessTokenRequest
    grant_type=s! code=s! redirect_uri=s! client_id=s client_secret=s state=s
   D {'grant_type': 'authorization_code'}
oauth2:AuthorizationRequest
    response_type=S! client_id=s! scope=S redirect_uri=s state=s
oauth2:AuthorizationResponse
    error=s error_description=s error_uri=s code=s! state=s iss=s client_id=s
oauth2:AccessTokenResponse
    error=s error_description=s error_uri=s access_token=s! token_type=s! expires_in=i refresh_token=s scope=S state=s
oauth2:NoneResponse
    error=s error_description=s error_uri=s state=s
oauth2:ROPCAccessTokenRequest
    grant_type=s! username=s password=s scope=S
oauth2:CCAccessTokenRequest
    grant_type=s! scope=S
   D {'grant_type': 'client_credentials'}
   A {'grant_type': ['client_credentials']}
oauth2:RefreshAccessTokenRequest
    grant_type=s! refresh_token=s! scope=S client_id=s client_secret=s
   D {'grant_type': 'refresh_token'}
   A {'grant_type': ['refresh_token']}
oauth2:ResourceRequest
    access_token=s
oauth2:ASConfigurationResponse
    error=s error_description=s error_uri=s issuer=s! authorization_endpoint=s token_endpoint=s jwks_uri=s registration_endpoint=s scopes_supported=L response_types_supported=L! response_modes_supported=L grant_types_supported=L! token_endpoint_auth_methods_supported=L token_endpoint_auth_signing_alg_values_supported=L service_documentation=s ui_locales_supported=L op_policy_uri=s op_tos_uri=s revocation_endpoint=s introspection_endpoint=s
   D {'version': '3.0'}
oauth2:TokenIntrospectionRequest
    token=s! token_type_hint=s client_id=s client_assertion_type=s client_assertion=s
oauth2:TokenIntrospectionResponse
    active=b! scope=S client_id=s username=s token_type=s exp=i iat=i nbf=i sub=s aud=L iss=s jti=s
oauth2:TokenExchangeRequest
    grant_type=s! resource=L audience=L scope=S requested_token_type=s subject_token=s! subject_token_type=s! actor_token=s actor_token_type=s
oauth2:TokenExchangeResponse
    access_token=s! issued_token_type=s! token_type=s! expires_in=i refresh_token=s scope=S
oauth2:JWTSecuredAuthorizationRequest
    response_type=S! client_id=s! scope=S redirect_uri=s state=s request=s request_uri=s
oauth2:PushedAuthorizationRequest
    response_type=S! client_id=s! scope=S redirect_uri=s state=s request=s
oauth2:SecurityEventToken
    iss=s! iat=i! jti=s! aud=L sub=s exp=i events=J txt=s toe=i
oauth2.device_authorization:AuthorizationRequest
    client_id=s! scope=s
oauth2.device_authorization:AuthorizationResponse
    device_code=s! user_code=s! verification_uri=s! verification_uri_complete=s expires_in=i! interval=i
oauth2.device_authorization:AccessTokenRequest
    grant_type=s! device_code=s code=s redirect_uri=s client_id=s client_secret=s state=s client_assertion_type=s client_assertion=s
   D {'grant_type': 'authorization_code'}
   A {'client_assertion_type': ['urn:ietf:params:oauth:client-assertion-type:jwt-bearer']}
oidc:RefreshAccessTokenRequest
    grant_type=s! refresh_token=s! scope=S client_id=s client_secret=s
   D {'grant_type': 'refresh_token'}
   A {'grant_type': ['refresh_token']}
oidc:TokenErrorResponse
    error=s error_description=s error_uri=s
   A {'error': ['invalid_request', 'invalid_client', 'invalid_grant', 'unauthorized_client', 'unsupported_grant_type', 'invalid_scope']}
oidc:AccessTokenResponse
    error=s error_description=s error_uri=s access_token=s! token_type=s! expires_in=i refresh_token=s scope=S state=s id_token=s
oidc:UserInfoRequest
    access_token=s
oidc:AuthorizationResponse
    error=s error_description=s error_uri=s code=s state=s iss=s client_id=s access_token=s token_type=s expires_in=i refresh_token=s scope=S id_token=T session_state=s
oidc:AuthorizationErrorResponse
    error=s error_description=s error_uri=s state=s
   A {'error': ['invalid_request', 'unauthorized_client', 'access_denied', 'unsupported_response_type', 'invalid_scope', 'server_error', 'temporarily_unavailable', 'interaction_required', 'login_required', 'session_selection_required', 'consent_required', 'invalid_request_uri', 'invalid_request_object', 'registration_not_supported', 'request_not_supported', 'request_uri_not_supported']}
oidc:AuthorizationRequest
    response_type=S! client_id=s! scope=S! redirect_uri=s! state=s nonce=s display=s prompt=S max_age=i ui_locales=S claims_locales=S id_token_hint=s login_hint=s acr_values=S claims=C registration=J request=s request_uri=s response_mode=s
   A {'display': ['page', 'popup', 'touch', 'wap'], 'prompt': ['none', 'login', 'consent', 'select_account']}
oidc:AccessTokenRequest
    grant_type=s! code=s! redirect_uri=s! client_id=s client_secret=s state=s client_assertion_type=s client_assertion=s
   D {'grant_type': 'authorization_code'}
   A {'client_assertion_type': ['urn:ietf:params:oauth:client-assertion-type:jwt-bearer']}
oidc:AddressClaim
    formatted=s street_address=s locality=s region=s postal_code=s country=s
oidc:OpenIDSchema
    error=s error_description=s error_uri=s sub=s! name=s given_name=s family_name=s middle_name=s nickname=s preferred_username=s profile=s picture=s website=s email=s email_verified=b gender=s birthdate=s zoneinfo=s locale=s phone_number=s phone_number_verified=b address=A updated_at=i _claim_names=M _claim_sources=M
oidc:RegistrationRequest
    redirect_uris=L! response_types=L grant_types=L application_type=s contacts=L client_name=s logo_uri=s client_uri=s policy_uri=s tos_uri=s jwks=D jwks_uri=s sector_identifier_uri=s subject_type=s id_token_signed_response_alg=s id_token_encrypted_response_alg=s id_token_encrypted_response_enc=s userinfo_signed_response_alg=s userinfo_encrypted_response_alg=s userinfo_encrypted_response_enc=s request_object_signing_alg=s request_object_encryption_alg=s request_object_encryption_enc=s token_endpoint_auth_method=s token_endpoint_auth_signing_alg=s default_max_age=i require_auth_time=b default_acr_values=L initiate_login_uri=s request_uris=L post_logout_redirect_uris=L frontchannel_logout_uri=s frontchannel_logout_session_required=b backchannel_logout_uri=s backchannel_logout_session_supported=b federation_type=L organization_name=s
   D {'application_type': 'web', 'response_types': ['code']}
   A {'application_type': ['native', 'web'], 'subject_type': ['public', 'pairwise']}
oidc:RegistrationResponse
    error=s error_description=s error_uri=s client_id=s! client_secret=s registration_access_token=s registration_client_uri=s client_id_issued_at=i client_secret_expires_at=i redirect_uris=L! response_types=L grant_types=L application_type=s contacts=L client_name=s logo_uri=s client_uri=s policy_uri=s tos_uri=s jwks=D jwks_uri=s sector_identifier_uri=s subject_type=s id_token_signed_response_alg=s id_token_encrypted_response_alg=s id_token_encrypted_response_enc=s userinfo_signed_response_alg=s userinfo_encrypted_response_alg=s userinfo_encrypted_response_enc=s request_object_signing_alg=s request_object_encryption_alg=s request_object_encryption_enc=s token_endpoint_auth_method=s token_endpoint_auth_signing_alg=s default_max_age=i require_auth_time=b default_acr_values=L initiate_login_uri=s request_uris=L post_logout_redirect_uris=L frontchannel_logout_uri=s frontchannel_logout_session_required=b backchannel_logout_uri=s backchannel_logout_session_supported=b federation_type=L organization_name=s
oidc:ClientRegistrationErrorResponse
    error=s error_description=s error_uri=s
   A {'error': ['invalid_redirect_uri', 'invalid_client_metadata', 'invalid_configuration_parameter']}
oidc:IdToken
    error=s error_description=s error_uri=s sub=s! name=s given_name=s family_name=s middle_name=s nickname=s preferred_username=s profile=s picture=s website=s email=s email_verified=b gender=s birthdate=s zoneinfo=s locale=s phone_number=s phone_number_verified=b address=A updated_at=i _claim_names=M _claim_sources=M iss=s! aud=L! exp=i! iat=i! auth_time=i nonce=s at_hash=s c_hash=s acr=s amr=L azp=s sub_jwk=s sid=s
oidc:MessageWithIdToken
    id_token=T!
oidc:OpenIDRequest
    response_type=S! client_id=s! scope=S! redirect_uri=s! state=s nonce=s display=s prompt=S max_age=i ui_locales=S claims_locales=S id_token_hint=s login_hint=s acr_values=S claims=C registration=J request=s request_uri=s response_mode=s
   A {'display': ['page', 'popup', 'touch', 'wap'], 'prompt': ['none', 'login', 'consent', 'select_account']}
oidc:ProviderConfigurationResponse
    error=s error_description=s error_uri=s issuer=s! authorization_endpoint=s! token_endpoint=s userinfo_endpoint=s jwks_uri=s! registration_endpoint=s scopes_supported=L response_types_supported=L! response_modes_supported=L grant_types_supported=L acr_values_supported=L subject_types_supported=L! id_token_signing_alg_values_supported=L! id_token_encryption_alg_values_supported=L id_token_encryption_enc_values_supported=L userinfo_signing_alg_values_supported=L userinfo_encryption_alg_values_supported=L userinfo_encryption_enc_values_supported=L request_object_signing_alg_values_supported=L request_object_encryption_alg_values_supported=L request_object_encryption_enc_values_supported=L token_endpoint_auth_methods_supported=L token_endpoint_auth_signing_alg_values_supported=L display_values_supported=L claim_types_supported=L claims_supported=L service_documentation=s claims_locales_supported=L ui_locales_supported=L claims_parameter_supported=b request_parameter_supported=b request_uri_parameter_supported=b require_request_uri_registration=b op_policy_uri=s op_tos_uri=s check_session_iframe=s end_session_endpoint=s frontchannel_logout_supported=b frontchannel_logout_session_supported=b backchannel_logout_supported=b backchannel_logout_session_supported=b
   D {'version': '3.0', 'token_endpoint_auth_methods_supported': ['client_secret_basic'], 'claims_parameter_supported': False, 'request_parameter_supported': False, 'request_uri_parameter_supported': True, 'require_request_uri_registration': True, 'grant_types_supported': ['authorization_code', 'implicit']}
oidc:JsonWebToken
    iss=s sub=s aud=L exp=i nbf=i iat=i jti=s
oidc:AuthnToken
    iss=s! sub=s! aud=L! jti=s! exp=i! iat=i
oidc:UserInfoErrorResponse
    error=s error_description=s error_uri=s
   A {'error': ['invalid_schema', 'invalid_request', 'invalid_token', 'insufficient_scope']}
oidc:DiscoveryRequest
    resource=s! rel=s!
oidc:Link
    rel=s! type=s href=s titles=D properties=D
oidc:JRD
    subject=s aliases=L properties=D links=K!
oidc:WebFingerRequest
    resource=s! rel=s!
   D {'rel': 'http://openid.net/specs/connect/1.0/issuer'}
oidc:ResourceRequest
    access_token=s
oidc:Claims
    
oidc:ClaimsRequest
    userinfo=Q id_token=Q
oidc.session:RefreshSessionRequest
    id_token=T! redirect_url=s! state=s!
oidc.session:RefreshSessionResponse
    id_token=T! error=s error_description=s error_uri=s state=s!
oidc.session:CheckSessionRequest
    id_token=T!
oidc.session:CheckIDRequest
    access_token=s!
oidc.session:EndSessionRequest
    id_token_hint=T post_logout_redirect_uri=s state=s
oidc.session:EndSessionResponse
    error=s error_description=s error_uri=s state=s
oidc.session:LogoutToken
    iss=s! sub=s aud=L! iat=i! jti=s! events=J! sid=s
oidc.session:BackChannelLogoutRequest
    logout_token=s!
oidc.identity_assurance:PlaceOfBirth
    country=s! region=s locality=s!
oidc.identity_assurance:IdentityAssuranceClaims
    error=s error_description=s error_uri=s sub=s! name=s given_name=s family_name=s middle_name=s nickname=s preferred_username=s profile=s picture=s website=s email=s email_verified=b gender=s birthdate=s zoneinfo=s locale=s phone_number=s phone_number_verified=b address=A updated_at=i _claim_names=M _claim_sources=M place_of_birth=J nationalities=s birth_family_name=s birth_given_name=s birth_middle_name=s salutation=s title=s
oidc.identity_assurance:Verifier
    organization=s! txn=s!
oidc.identity_assurance:Issuer
    name=s! country=s!
oidc.identity_assurance:Document
    type=s! number=s! issuer=X:Issuer! date_of_issuance=t! date_of_expiry=t!
oidc.identity_assurance:Evidence
    type=s
oidc.identity_assurance:IdDocument
    type=s method=s! verifier=X:Verifier! time=t document=X:Document
oidc.identity_assurance:Provider
    formatted=s street_address=s locality=s region=s postal_code=s country=s name=s
oidc.identity_assurance:UtilityBill
    type=s provider=X:Provider! date=t
oidc.identity_assurance:QES
    type=s issuer=s! serial_number=s! created_at=t!
oidc.identity_assurance:VerificationElement
    trust_framework=s! time=t verification_process=s evidence=E~
oidc.identity_assurance:VerifiedClaims
    verification=X:VerificationElement claims=X:IdentityAssuranceClaims
oidc.identity_assurance:VerificationElementRequest
    trust_framework=s! time=t verification_process=s evidence=E~
oidc.identity_assurance:VerifiedClaimsRequest
    verification=M claims=X:IdentityAssuranceClaims
oidc.identity_assurance:IDAClaimsRequest
    userinfo=Q id_token=Q
'''


class Spec:
    def __init__(self, key):
        self.module, self.name = key.split(':')
        self.key = key
        self.params, self.required, self.null_ok = {}, set(), set()
        self.defaults, self.allowed = {}, {}

    def __repr__(self):
        return 'Spec(%s)' % self.key


def _load():
    res, cur = {}, None
    for line in TABLE.splitlines():
        if not line.strip():
            continue
        if not line.startswith(' '):
            cur = res[line.strip()] = Spec(line.strip())
            continue
        line = line.strip()
        if line.startswith('D {'):
            cur.defaults = ast.literal_eval(line[2:])
        elif line.startswith('A {'):
            cur.allowed = ast.literal_eval(line[2:])
        else:
            for item in line.split():
                k, v = item.split('=')
                if v.endswith('~'):
                    cur.null_ok.add(k)
                    v = v[:-1]
                if v.endswith('!'):
                    cur.required.add(k)
                    v = v[:-1]
                cur.params[k] = v
    return res


SPECS = _load()
