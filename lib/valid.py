"""Messages that satisfy every rule of their class, built from the specifications."""
import base64
import json

from hypothesis import strategies as st

import gen
import msgs
from spec import SPECS

NOW = 1700000000
ERRCHARS = [chr(c) for c in range(0x20, 0x7f) if chr(c) not in '"\\']
err_text = st.one_of(st.text(alphabet=ERRCHARS, min_size=1, max_size=20), st.just(''.join(ERRCHARS)),
                     st.sampled_from(ERRCHARS))
SCOPECHARS = [c for c in ERRCHARS if c != ' ']
scope_token = st.one_of(gen.simple, st.text(alphabet=SCOPECHARS, min_size=1, max_size=8), st.just(''.join(SCOPECHARS)),
                        st.sampled_from(['profile', 'email', 'openid2', 'offline', 'openi', 'Openid']))
birthdate = st.one_of(st.dates(min_value=__import__('datetime').date(1000, 1, 1)).map(str),
                      st.integers(1000, 9999).map(str),
                      st.sampled_from(['0000-12-31', '0000-01-01', '0000-02-28', '2000-02-29', '1999-10-11']))
past = st.one_of(st.integers(1, 3600).map(lambda d: NOW - d), st.sampled_from([NOW, NOW - 1]))
future = st.one_of(st.integers(1, 10 ** 6).map(lambda d: NOW + d), st.sampled_from([NOW, NOW + 1]))

# names with a meaning of their own somewhere
SPECIAL = {'device_code', 'nonce', 'nbf', 'aud', 'verified_claims', 'verified_id_token_hint', 'self', 'set_defaults'}
ALL_NAMES = {p for s in SPECS.values() for p in s.params}


def b64(x):
    if not isinstance(x, bytes):
        x = json.dumps(x).encode()
    return base64.urlsafe_b64encode(x).rstrip(b'=').decode()


def unsigned(claims, header=None):
    return '%s.%s.' % (b64(header or {'alg': 'none'}), b64(claims))


ISS, CLIENT = 'https://op.example.org', 'client1'
ID_CLAIMS = {'iss': ISS, 'sub': 'subject', 'aud': [CLIENT], 'exp': NOW + 600, 'iat': NOW - 5}
LOGOUT_EVENT = {'http://schemas.openid.net/event/backchannel-logout': {}}
LOGOUT_CLAIMS = {'iss': ISS, 'sub': 'subject', 'aud': [CLIENT], 'iat': NOW - 5, 'jti': 'id1', 'events': LOGOUT_EVENT}
NONEMPTY = gen.text


def extras(key, max_size=2):
    """Unknown parameters without a meaning anywhere."""
    return st.dictionaries(gen.ident.filter(
        lambda k: k.split('#')[0] not in ALL_NAMES and k not in SPECIAL and not k.startswith('__verified')),
        gen.json_value.filter(lambda v: v is not None and v not in ('', [''])), max_size=max_size)


NO_OPT = {'oidc:AuthorizationRequest': ('request', 'request_uri', 'id_token_hint'),
          'oidc:OpenIDRequest': ('request', 'request_uri', 'id_token_hint'),
          'oauth2:PushedAuthorizationRequest': ('request',)}


@st.composite
def valid(draw, key):
    """(params, verify arguments): accepted at NOW."""
    spec = SPECS[key]
    p = draw(msgs.params_for(key))
    for n in NO_OPT.get(key, ()):
        p.pop(n, None)
    kw = {}
    for n in list(p):
        c = spec.params[n]
        if n in spec.allowed:
            if c == 's':
                p[n] = draw(st.sampled_from(spec.allowed[n]))
            else:
                p[n] = draw(st.lists(st.sampled_from(spec.allowed[n]), min_size=1, max_size=2))
        elif n == 'error_description':
            p[n] = draw(err_text)
        elif c == 'T' or (n, c) == ('id_token', 's'):
            p[n] = unsigned(ID_CLAIMS)
            kw = {'sigalg': 'none', 'keyjar': None}
        elif n == 'birthdate':
            p[n] = draw(birthdate)
        elif c == 'i' and n in spec.required and p[n] == 0:
            p[n] = 1
        elif c == 'E':
            p[n] = [{'type': 'qes', 'issuer': 'i', 'serial_number': '1', 'created_at': '2020-01-01T00:00:00+0000'}]
    name = key.split(':')[1]
    if key in ('oidc:AuthorizationRequest', 'oidc:OpenIDRequest'):
        p['scope'] = draw(st.permutations(['openid'] + draw(st.lists(scope_token, max_size=2))))
        p['response_type'] = draw(st.sampled_from([['code'], ['id_token'], ['code', 'id_token'], ['token', 'id_token'],
                                                   ['token']]))
        if 'id_token' in p['response_type']:
            p['nonce'] = draw(gen.text)
        if 'prompt' in p:
            p['prompt'] = draw(st.sampled_from([['none'], ['login'], ['consent'], ['login', 'consent'],
                                                ['select_account', 'login', 'consent']]))
    elif key == 'oauth2:JWTSecuredAuthorizationRequest':
        p.pop('request', None)
        p.pop('request_uri', None)
        p['request'] = unsigned(p)
        kw = {'keyjar': None}
    elif key == 'oauth2.device_authorization:AccessTokenRequest':
        for n in ('client_id',) if 'device_code' in p else ('code', 'redirect_uri'):
            p.setdefault(n, 'given')
    elif name == 'IdToken':
        p['aud'] = [draw(gen.text)]
        p['exp'], p['iat'] = draw(future), draw(past)
        if 'azp' in p:
            p['azp'] = p['aud'][0]
    elif key in ('oidc:JsonWebToken', 'oidc:AuthnToken'):
        for n, s in (('exp', future), ('iat', past), ('nbf', past)):
            if n in p:
                p[n] = draw(s)
    elif key in ('oidc:RegistrationRequest', 'oidc:RegistrationResponse'):
        if name == 'RegistrationRequest':
            for n in ('request_object_encryption', 'id_token_encrypted_response', 'userinfo_encrypted_response'):
                if n + '_alg' in p or n + '_enc' in p:
                    p.setdefault(n + '_alg', 'RSA-OAEP')
                    p.setdefault(n + '_enc', 'A128GCM')
            if 'initiate_login_uri' in p:
                p['initiate_login_uri'] = 'https://rp.example.com/login'
            if 'token_endpoint_auth_signing_alg' in p:
                p['token_endpoint_auth_signing_alg'] = draw(st.sampled_from(['RS256', 'ES256', 'None']))
        elif ('registration_client_uri' in p) != ('registration_access_token' in p):
            p['registration_client_uri'], p['registration_access_token'] = 'https://op.example.org/r', 'tok'
    elif name == 'ProviderConfigurationResponse':
        p['issuer'] = draw(st.sampled_from(['https://op.example.org', 'https://op.example.org/a/b', 'https://[::1]:80/']))
        if 'scopes_supported' in p:
            p['scopes_supported'] = draw(st.permutations(['openid'] + draw(st.lists(scope_token, max_size=2))))
        p['id_token_signing_alg_values_supported'] = draw(st.permutations(
            ['RS256'] + draw(st.lists(st.sampled_from(['none', 'ES256', 'HS256']), max_size=2))))
        p['response_types_supported'] = draw(st.sampled_from([['code'], ['id_token'], ['token', 'code token']]))
        if any('code' in r for r in p['response_types_supported']):
            p.setdefault('token_endpoint', 'https://op.example.org/token')
    elif name == 'EndSessionRequest':
        if 'post_logout_redirect_uri' in p and 'id_token_hint' not in p:
            p['id_token_hint'] = unsigned(ID_CLAIMS)
            kw = {'sigalg': 'none', 'keyjar': None}
    elif name == 'LogoutToken':
        p['events'] = LOGOUT_EVENT
        p['iat'] = draw(past)
        if 'sub' not in p and 'sid' not in p:
            p['sub'] = 'subject'
    elif name == 'BackChannelLogoutRequest':
        p['logout_token'] = unsigned(LOGOUT_CLAIMS)
        kw = {'sigalg': 'none', 'keyjar': None}
    elif name == 'Evidence':
        p = {'type': 'qes', 'issuer': draw(gen.text), 'serial_number': draw(gen.text),
             'created_at': '2020-01-01T00:00:00+0000'}
    elif name == 'VerifiedClaimsRequest' and 'verification' in p:
        p['verification'] = {'trust_framework': draw(gen.text)}
    return p, kw


def kwargs_of(kw):
    """Replays hold literals only; the key jar is made here."""
    kw = dict(kw)
    if 'keyjar' in kw:
        from cryptojwt.key_jar import KeyJar
        kw['keyjar'] = KeyJar()
    return kw
