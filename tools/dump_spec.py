import sys, importlib, inspect
sys.path.insert(0,'/repo/src')
from oidcmsg.message import Message
import oidcmsg.message as M, oidcmsg.oidc as O, oidcmsg.oidc.identity_assurance as I
seen=set()
def code(t):
    vt,req,ser,deser,na=t
    n=lambda f: f.__name__ if f else None
    if vt is str and ser is None: c='s'
    elif vt is int: c='i'
    elif vt is bool: c='b'
    elif vt==[str] and n(ser)=='list_serializer': c='L'
    elif vt==[str] and n(ser)=='sp_sep_list_serializer': c='S'
    elif vt is str: c='t' if n(ser)=='time_stamp_ser' else '?'
    else: c='%s/%s/%s'%(vt.__name__ if not isinstance(vt,list) else [vt[0].__name__],n(ser),n(deser))
    return c+('!' if req else '')+('~' if na else '')
for mod in ['oidcmsg.oauth2','oidcmsg.oauth2.device_authorization','oidcmsg.oidc','oidcmsg.oidc.session','oidcmsg.oidc.identity_assurance']:
    m=importlib.import_module(mod)
    for name,c in vars(m).items():
        if inspect.isclass(c) and issubclass(c,Message) and c.__module__==mod:
            print('%s:%s'%(mod[8:],name))
            print('   ', ' '.join('%s=%s'%(k,code(v)) for k,v in c.c_param.items()))
            if c.c_default: print('   D', c.c_default)
            if c.c_allowed_values: print('   A', c.c_allowed_values)
