"""Makes lib/keys.json, the fixed test keys (run once; the file is committed)."""
import json, os, sys
from cryptojwt.jwk.rsa import new_rsa_key
from cryptojwt.jwk.ec import new_ec_key
import base64, hashlib
out = {}
for n in ('rsa1', 'rsa2', 'rsa3', 'rsa4'):
    out[n] = new_rsa_key(2048).serialize(private=True)
for n, crv in (('ec1', 'P-256'), ('ec2', 'P-256'), ('ec3', 'P-256'), ('ec384a', 'P-384'), ('ec384b', 'P-384'), ('ec521a', 'P-521'),
               ('ec521b', 'P-521')):
    out[n] = new_ec_key(crv).serialize(private=True)
for n in ('oct1', 'oct2', 'oct3', 'oct4'):
    out[n] = {'kty': 'oct', 'k': base64.urlsafe_b64encode(hashlib.sha512(n.encode()).digest()).rstrip(b'=').decode()}
for n in out:
    out[n].pop('kid', None)
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'keys.json'), 'w'), indent=1)
