From 577c8b7ad9d6d71c41512cc98093610cce930f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 01/61] fix: do not share mutable default values between
 message instances

---
 src/oidcmsg/message.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index f2991ed..ccd783e 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -36,7 +36,7 @@ class Message(MutableMapping):
 
     def __init__(self, set_defaults=True, **kwargs):
         if set_defaults:
-            self._dict = self.c_default.copy()
+            self._dict = copy.deepcopy(self.c_default)
         else:
             self._dict = {}
         self.lax = False
@@ -75,7 +75,8 @@ class Message(MutableMapping):
         Based on specification set a parameters value to the default value.
         """
         for key, val in self.c_default.items():
-            self._dict.setdefault(key, val)
+            if key not in self._dict:
+                self._dict[key] = copy.deepcopy(val)
 
     def to_urlencoded(self, lev=0):
         """
-- 
2.43.0


From 0b0b73dc0dfd93fddd1155283fbb850ec51453b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 02/61] fix: do not extend the OAuth2 error code list with the
 OIDC error codes

---
 src/oidcmsg/oidc/__init__.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index e21a7cb..c1dea28 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -390,15 +390,16 @@ class AuthorizationResponse(oauth2.AuthorizationResponse,
 class AuthorizationErrorResponse(oauth2.AuthorizationErrorResponse):
     c_allowed_values = oauth2.AuthorizationErrorResponse.c_allowed_values \
         .copy()
-    c_allowed_values["error"].extend(["interaction_required",
-                                      "login_required",
-                                      "session_selection_required",
-                                      "consent_required",
-                                      "invalid_request_uri",
-                                      "invalid_request_object",
-                                      "registration_not_supported",
-                                      "request_not_supported",
-                                      "request_uri_not_supported"])
+    c_allowed_values["error"] = c_allowed_values["error"] + [
+        "interaction_required",
+        "login_required",
+        "session_selection_required",
+        "consent_required",
+        "invalid_request_uri",
+        "invalid_request_object",
+        "registration_not_supported",
+        "request_not_supported",
+        "request_uri_not_supported"]
 
 
 class AuthorizationRequest(oauth2.AuthorizationRequest):
-- 
2.43.0


From 8716703a0b636baa0e036c6b78731e24a1e66b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 03/61] fix: accept all characters RFC 6749 allows in
 error_description

---
 src/oidcmsg/oauth2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 30f65b0..b668a8b 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -1,6 +1,5 @@
 import inspect
 import logging
-import string
 import sys
 
 from oidcmsg import verified_claim_name
@@ -28,7 +27,8 @@ def is_error_message(msg):
         return False
 
 
-error_chars = set(string.ascii_uppercase + string.ascii_lowercase + " " + "!")
+# %x20-21 / %x23-5B / %x5D-7E, see RFC 6749 appendix A
+error_chars = set(chr(c) for c in range(0x20, 0x7F)) - {'"', '\\'}
 
 
 class ResponseMessage(Message):
-- 
2.43.0


From c299ffc171221fbabceeb274272ebb07684c3df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 04/61] fix: allow %x21 in scope values

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index c1dea28..9621314 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -227,7 +227,7 @@ for char in ['\x21', ('\x23', '\x5b'), ('\x5d', '\x7E')]:
             SCOPE_CHARSET.append(c)
             c = chr(ord(c) + 1)
     else:
-        SCOPE_CHARSET.append(set)
+        SCOPE_CHARSET.append(char)
 
 
 def check_char_set(string, allowed):
-- 
2.43.0


From 7029e5d0f51c7b909cda57ac04e5790e7cefbb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:40 +0000
Subject: [PATCH 05/61] fix: let skew relax, not tighten, the nbf check of JSON
 Web Tokens

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 9621314..fb42378 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -984,7 +984,7 @@ class JsonWebToken(Message):
         except KeyError:
             pass
         else:
-            if _nbf > (_now - _skew):
+            if _nbf > (_now + _skew):
                 raise EXPError('Not valid yet')
 
         try:
-- 
2.43.0


From 1ff4c095190fcefc3078d1b072810804782750a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 06/61] fix: do not accept unsigned logout tokens unless
 explicitly allowed

---
 src/oidcmsg/oidc/session.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oidcmsg/oidc/session.py b/src/oidcmsg/oidc/session.py
index 7a9550a..7005212 100644
--- a/src/oidcmsg/oidc/session.py
+++ b/src/oidcmsg/oidc/session.py
@@ -177,6 +177,13 @@ class BackChannelLogoutRequest(Message):
             except KeyError:
                 pass
         idt = LogoutToken().from_jwt(str(self["logout_token"]), **args)
+
+        # from_jwt lets unsigned tokens through, so the policy is applied here.
+        _header = idt.jws_header
+        if not _header or _header['alg'] == 'none':
+            if kwargs.get("sigalg") != "none" and not kwargs.get('allow_sign_alg_none', False):
+                raise UnsupportedAlgorithm('Unsigned logout token not allowed')
+
         if not idt.verify(**kwargs):
             return False
 
-- 
2.43.0


From 7868cd13aa4889bc3cb382b7cb648b05359d3c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 07/61] fix: drop a verified_id_token_hint the sender of the
 request supplied

---
 src/oidcmsg/oidc/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index fb42378..31c332a 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -478,6 +478,10 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
                 # replace the JWT with the parsed and verified instance
                 self[verified_claim_name("request")] = oidr
 
+        # Only what is verified below may appear as a verified ID Token hint
+        if "verified_id_token_hint" in self:
+            del self["verified_id_token_hint"]
+
         if "id_token_hint" in self:
             if isinstance(self["id_token_hint"], str):
                 idt = IdToken().from_jwt(str(self["id_token_hint"]), **args)
-- 
2.43.0


From 2d895f2308f35e28af363fcd727fc93f2125c65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 08/61] fix: return True from verify methods that fell off
 their end on success

---
 src/oidcmsg/oauth2/device_authorization.py | 2 ++
 src/oidcmsg/oidc/identity_assurance.py     | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/oidcmsg/oauth2/device_authorization.py b/src/oidcmsg/oauth2/device_authorization.py
index 4cb4e4f..c8a1aad 100644
--- a/src/oidcmsg/oauth2/device_authorization.py
+++ b/src/oidcmsg/oauth2/device_authorization.py
@@ -34,3 +34,5 @@ class AccessTokenRequest(oidc.AccessTokenRequest):
             for claim in ["grant_type", "client_id"]:
                 if claim not in self:
                     raise MissingRequiredAttribute(claim)
+
+        return True
diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index cff6eb2..a550eb8 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -481,6 +481,7 @@ class VerificationElementRequest(Message):
     def verify(self, **kwargs):
         super(VerificationElementRequest, self).verify(**kwargs)
         verify_claims_request(self, VerificationElement())
+        return True
 
 
 def verification_element_request_deser(val, sformat="urlencoded"):
@@ -500,6 +501,7 @@ class VerifiedClaimsRequest(Message):
     def verify(self, **kwargs):
         super(VerifiedClaimsRequest, self).verify(**kwargs)
         verify_claims_request(self, VerifiedClaims())
+        return True
 
 
 class IDAClaimsRequest(ClaimsRequest):
@@ -510,6 +512,7 @@ class IDAClaimsRequest(ClaimsRequest):
             _vci = VerifiedClaimsRequest(**_vc)
             _vci.verify()
             self["verified_claims"] = _vci
+        return True
 
 
 class ClaimsConstructor:
-- 
2.43.0


From 2e055c4ac2295e526812495ab8eb35d562cc05cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 09/61] fix: stop the endless recursion when verifying identity
 assurance evidence

---
 src/oidcmsg/oidc/identity_assurance.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index a550eb8..48a81cd 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -227,6 +227,11 @@ class Evidence(Message):
     }
 
     def verify(self, **kwargs):
+        super(Evidence, self).verify(**kwargs)
+        if type(self) is not Evidence:
+            # A specific kind of evidence, so there is nothing to dispatch on
+            return True
+
         _type = self.get("type")
         if _type:
             if _type == "id_document":
@@ -255,6 +260,7 @@ class Evidence(Message):
                 self["type"] = "qes"
             else:
                 raise ValueError("Unknown object")
+        return True
 
 
 def evidence_deser(val, sformat="urlencoded"):
-- 
2.43.0


From 1c4d7f36f62340d6b1d315f0c8a74680357ea892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:37 +0000
Subject: [PATCH 10/61] fix: guess the kind of evidence also when the type is
 left out

---
 src/oidcmsg/oidc/identity_assurance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 48a81cd..7408d42 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -246,15 +246,15 @@ class Evidence(Message):
             else:
                 raise ValueError("Unknown type")
         else:  # let the guessing begin
-            if all(x in self.keys() for x in IdDocument.c_param.keys()):
+            if all(x in self.keys() for x in IdDocument.c_param.keys() if x != "type"):
                 _doc = IdDocument(**self.to_dict())
                 _doc.verify(**kwargs)
                 self["type"] = "id_document"
-            elif all(x in self.keys() for x in UtilityBill.c_param.keys()):
+            elif all(x in self.keys() for x in UtilityBill.c_param.keys() if x != "type"):
                 _bill = UtilityBill(**self.to_dict())
                 _bill.verify(**kwargs)
                 self["type"] = "utility_bill"
-            elif all(x in self.keys() for x in QES.c_param.keys()):
+            elif all(x in self.keys() for x in QES.c_param.keys() if x != "type"):
                 _qes = QES(**self.to_dict())
                 _qes.verify(**kwargs)
                 self["type"] = "qes"
-- 
2.43.0


From 87a4bc47b7e914a962ffdfa5ccf5bb8adb8d0225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 11/61] fix: use the UTC offset of the time stamp itself when
 writing ISO 8601 times

---
 src/oidcmsg/oidc/identity_assurance.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 7408d42..dce34b4 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -57,9 +57,6 @@ def to_iso8601_2004(val=0, format=TIME_FORMAT):
     :return: A string following the DATE_FORMAT format
     """
 
-    # Finds the local time zone
-    ltz = datetime.datetime.utcnow().astimezone().tzinfo
-
     if val:
         if isinstance(val, datetime.datetime):
             d = val
@@ -70,7 +67,11 @@ def to_iso8601_2004(val=0, format=TIME_FORMAT):
     else:
         d = datetime.datetime.now()
 
-    return d.replace(tzinfo=ltz).strftime(format)
+    if d.tzinfo is None:
+        # Local time, with the UTC offset that applies at that point in time
+        d = d.astimezone()
+
+    return d.strftime(format)
 
 
 def from_iso8601_2004(isotime, format=TIME_FORMAT):
-- 
2.43.0


From ccbc24d73baa594c2805b753aa5f0ad60af2ecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 12/61] fix: allow messages holding ISO 8601 formatted time
 stamps to be serialized

---
 src/oidcmsg/oidc/identity_assurance.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index dce34b4..ebde830 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -108,7 +108,10 @@ def time_stamp_ser(val, sformat="", lev=0):
     elif isinstance(val, float):
         return to_iso8601_2004_time(int(val))
     elif isinstance(val, str):
-        return to_iso8601_2004_time(int(val))
+        try:
+            return to_iso8601_2004_time(int(val))
+        except ValueError:  # not seconds since epoch, so already formatted
+            return val
     else:
         raise ValueError("Wrong type of value")
 
@@ -133,7 +136,10 @@ def date_ser(val, sformat="", lev=0):
     elif isinstance(val, float):
         return to_iso8601_2004_date(int(val))
     elif isinstance(val, str):
-        return to_iso8601_2004_date(int(val))
+        try:
+            return to_iso8601_2004_date(int(val))
+        except ValueError:  # not seconds since epoch, so already formatted
+            return val
     else:
         raise ValueError("Wrong type of value")
 
-- 
2.43.0


From a312dc3949ef1e9936094e612306b087d547acda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 13/61] fix: delete the file a key maps to, also when the key
 has to be quoted

---
 src/oidcmsg/storage/abfile.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 248b99b..dc9f68d 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -126,6 +126,19 @@ class AbstractFileSystem(Storage):
         self.fmtime[_key] = self.get_mtime(fname)
 
     def __delitem__(self, key):
+        try:
+            _key = self.key_conv.serialize(key)
+        except KeyError:
+            _key = key
+
+        self._delete_file(_key)
+
+    def _delete_file(self, key):
+        """
+        Remove a file and what the cache knows about it.
+
+        :param key: The serialized key, that is the name of the file
+        """
         fname = os.path.join(self.fdir, key)
         if os.path.isfile(fname):
             lock = FileLock('{}.lock'.format(fname))
@@ -249,7 +262,7 @@ class AbstractFileSystem(Storage):
             return
 
         for f in os.listdir(self.fdir):
-            del self[f]
+            self._delete_file(f)
 
     def update(self, ava):
         """
-- 
2.43.0


From 218621af5842690867fbf88bcf3b66454a071af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:09 +0000
Subject: [PATCH 14/61] fix: do not list items whose file has been removed by
 another user of the directory

---
 src/oidcmsg/storage/abfile.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index dc9f68d..5ae22bf 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -149,6 +149,7 @@ class AbstractFileSystem(Storage):
             del self.storage[key]
         except KeyError:
             pass
+        self.fmtime.pop(key, None)
 
     def keys(self):
         """
@@ -224,6 +225,13 @@ class AbstractFileSystem(Storage):
         if not os.path.isdir(self.fdir):
             os.makedirs(self.fdir)
             # raise ValueError('No such directory: {}'.format(self.fdir))
+
+        # Forget about files that someone else has removed
+        for f in list(self.storage.keys()):
+            if not os.path.isfile(os.path.join(self.fdir, f)):
+                del self.storage[f]
+                self.fmtime.pop(f, None)
+
         for f in os.listdir(self.fdir):
             fname = os.path.join(self.fdir, f)
 
-- 
2.43.0


From 91297384075458d77935b92707754af6f1e7579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 15/61] fix: do not let clear() pile up lock files of lock
 files

---
 src/oidcmsg/storage/abfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 5ae22bf..ac82440 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -270,6 +270,8 @@ class AbstractFileSystem(Storage):
             return
 
         for f in os.listdir(self.fdir):
+            if f.endswith('.lock'):  # would only leave yet another lock file
+                continue
             self._delete_file(f)
 
     def update(self, ava):
-- 
2.43.0


From a992155375cd1fb181d3b66d0da189b3526e1aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:22 +0000
Subject: [PATCH 16/61] fix: answer membership from the directory, as reading a
 value does

---
 src/oidcmsg/storage/abfile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index ac82440..47545d7 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -285,13 +285,17 @@ class AbstractFileSystem(Storage):
             self[key] = val
 
     def __contains__(self, item):
-        return self.key_conv.serialize(item) in self.storage
+        _key = self.key_conv.serialize(item)
+        if _key.endswith('.lock'):
+            return _key in self.storage
+
+        return os.path.isfile(os.path.join(self.fdir, _key))
 
     def __iter__(self):
         return self.items()
 
     def __call__(self, *args, **kwargs):
-        return [self.key_conv.deserialize(k) for k in self.storage.keys()]
+        return list(self.keys())
 
     def __len__(self):
         if not os.path.isdir(self.fdir):
-- 
2.43.0


From 290a40733e4f09d8e7bc6eb43307b3f2aeef5b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:25 +0000
Subject: [PATCH 17/61] fix: take the modification time of a written file while
 holding its lock

---
 src/oidcmsg/storage/abfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 47545d7..1ceae2e 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -120,10 +120,11 @@ class AbstractFileSystem(Storage):
         with lock:
             with open(fname, 'w') as fp:
                 fp.write(self.value_conv.serialize(value))
+            # Has to be the time of this write, not that of a later one
+            self.fmtime[_key] = self.get_mtime(fname)
 
         self.storage[_key] = value
         logger.debug('Wrote to "%s"', key)
-        self.fmtime[_key] = self.get_mtime(fname)
 
     def __delitem__(self, key):
         try:
-- 
2.43.0


From c1ba3e30f2163815fc3afb1df397a95be257bb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 18/61] fix: do not translate line endings inside stored values

---
 src/oidcmsg/storage/abfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 1ceae2e..16424b8 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -118,7 +118,7 @@ class AbstractFileSystem(Storage):
         fname = os.path.join(self.fdir, _key)
         lock = FileLock('{}.lock'.format(fname))
         with lock:
-            with open(fname, 'w') as fp:
+            with open(fname, 'w', newline='') as fp:
                 fp.write(self.value_conv.serialize(value))
             # Has to be the time of this write, not that of a later one
             self.fmtime[_key] = self.get_mtime(fname)
@@ -209,7 +209,7 @@ class AbstractFileSystem(Storage):
             try:
                 lock = FileLock('{}.lock'.format(fname))
                 with lock:
-                    info = open(fname, 'r').read().strip()
+                    info = open(fname, 'r', newline='').read().strip()
                 return self.value_conv.deserialize(info)
             except Exception as err:
                 logger.error(err)
-- 
2.43.0


From 37a3765fc0bd5f1e3dbc569d98d4bd6ee29fd826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 19/61] fix: keep the stored value when the new one can not be
 serialized

---
 src/oidcmsg/storage/abfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 16424b8..e081b09 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -116,10 +116,13 @@ class AbstractFileSystem(Storage):
             _key = key
 
         fname = os.path.join(self.fdir, _key)
+        # If this fails the present value must be left untouched
+        _value = self.value_conv.serialize(value)
+
         lock = FileLock('{}.lock'.format(fname))
         with lock:
             with open(fname, 'w', newline='') as fp:
-                fp.write(self.value_conv.serialize(value))
+                fp.write(_value)
             # Has to be the time of this write, not that of a later one
             self.fmtime[_key] = self.get_mtime(fname)
 
-- 
2.43.0


From 01708f86d46c48c5e3a142c9cc69b771253dd09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:52 +0000
Subject: [PATCH 20/61] fix: make update, iteration and length of labeled
 storages work

---
 src/oidcmsg/storage/abfile.py    | 17 +++--------------
 src/oidcmsg/storage/extension.py |  6 +++---
 2 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index e081b09..07fcf5d 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -337,9 +337,9 @@ class LabeledAbstractFileSystem(Storage):
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for key, val in ava.items():
+            self[key] = val
 
     @key_label
     def __getitem__(self, k):
@@ -374,15 +374,4 @@ class LabeledAbstractFileSystem(Storage):
         if not os.path.isdir(self.storage.fdir):
             return 0
 
-        n = 0
-        for f in os.listdir(self.storage.fdir):
-            if f.startswith(self.label):
-                fname = os.path.join(self.storage.fdir, f)
-
-                if not os.path.isfile(fname):
-                    continue
-                if fname.endswith('.lock'):
-                    continue
-
-                n += 1
-        return n
+        return len(self.keys())
diff --git a/src/oidcmsg/storage/extension.py b/src/oidcmsg/storage/extension.py
index 5554688..a29d7f6 100644
--- a/src/oidcmsg/storage/extension.py
+++ b/src/oidcmsg/storage/extension.py
@@ -35,9 +35,9 @@ class LabeledDict():
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for key, val in ava.items():
+            self[key] = val
 
     @key_label
     def __getitem__(self, k):
@@ -60,7 +60,7 @@ class LabeledDict():
         return self.storage.__contains__(k)
 
     def __iter__(self):
-        for key, val in self.storage.__iter__():
+        for key, val in self.storage.items():
             if key.startswith(self.label):
                 yield key[self.label_len:], val
 
-- 
2.43.0


From 3da795966e32e0a1a29477e885bc4503ad2d81f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 21/61] fix: commit deletions, and repair membership, iteration
 and failing writes, in the SQL storage

---
 src/oidcmsg/storage/absqlalchemy.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 9314ab8..96c2040 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -24,11 +24,16 @@ class AbstractStorageSQLAlchemy:
         return entry.data
 
     def set(self, k, v):
-        self.delete(k)
+        rem = self.table.delete().where(self.table.c.owner == k)
         ins = self.table.insert().values(owner=k,
                                          data=v)
-        self.session.execute(ins)
-        self.session.commit()
+        try:
+            self.session.execute(rem)
+            self.session.execute(ins)
+            self.session.commit()
+        except Exception:  # the present value must be left untouched
+            self.session.rollback()
+            raise
         return 1
 
     def update(self, k, v):
@@ -50,18 +55,17 @@ class AbstractStorageSQLAlchemy:
         delquery = self.table.delete().where(self.table.c.owner == v)
         n_entries = self.session.query(self.table).filter(self.table.c.owner == v).count()
         self.session.execute(delquery)
+        self.session.commit()
         return n_entries
 
     def __contains__(self, k):
-        for entry in self():
-            if k in entry:
-                return 1
+        return self.session.query(self.table).filter_by(owner=k).first() is not None
 
     def __call__(self):
         return self.session.query(self.table).all()
 
     def __iter__(self):
-        return self.session.query(self.table)
+        return iter(self.session.query(self.table))
 
     def __str__(self):
         entries = []
-- 
2.43.0


From 109f4ba1026fe88d093bacbcf83cc114ea803392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 22/61] fix: import os, which add_base_path uses

---
 src/oidcmsg/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/__init__.py b/src/oidcmsg/__init__.py
index 6c54ecc..327fed6 100755
--- a/src/oidcmsg/__init__.py
+++ b/src/oidcmsg/__init__.py
@@ -1,3 +1,5 @@
+import os
+
 __author__ = 'Roland Hedberg'
 __version__ = '1.1.3'
 
-- 
2.43.0


From afeb0c5c09134cab3f09cb71856ae55d1938186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 23/61] fix: parse durations that have minutes but no months

---
 src/oidcmsg/time_util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index 093db1c..3b10716 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -88,6 +88,11 @@ def parse_duration(duration):
 
     dic = dict([(typ, 0) for (code, typ) in D_FORMAT])
 
+    # 'M' means months before the 'T' and minutes after it
+    end = duration.find("T")
+    if end < 0:
+        end = len(duration)
+
     for code, typ in D_FORMAT:
         # print duration[index:], code
         if duration[index] == '-':
@@ -95,13 +100,14 @@ def parse_duration(duration):
         if code == "T":
             if duration[index] == "T":
                 index += 1
+                end = len(duration)
                 if index == len(duration):
                     raise TimeUtilError("Not allowed to end with 'T'")
             else:
                 raise TimeUtilError("Missing T")
         else:
             try:
-                mod = duration[index:].index(code)
+                mod = duration[index:end].index(code)
                 try:
                     dic[typ] = int(duration[index:index + mod])
                 except ValueError:
-- 
2.43.0


From ddf00971dae37a4ffae4009b5de626676b6cb027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 24/61] fix: carry hours into days at 24 when adding durations

---
 src/oidcmsg/time_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index 3b10716..4443e3e 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -149,8 +149,8 @@ def add_duration(tid, duration):
         carry = f_quotient(temp, 60)
         # hours
         temp = tid.tm_hour + dur["tm_hour"] + carry
-        hour = modulo(temp, 60)
-        carry = f_quotient(temp, 60)
+        hour = modulo(temp, 24)
+        carry = f_quotient(temp, 24)
         # days
         if dur["tm_mday"] > maximum_day_in_month_for(year, month):
             temp_days = maximum_day_in_month_for(year, month)
-- 
2.43.0


From 48624c6b18da16e4c5243edbe473944ed36dae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 25/61] fix: let proper_path never turn a relative path into
 the root directory

---
 src/oidcmsg/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/__init__.py b/src/oidcmsg/__init__.py
index 327fed6..87ed2c5 100755
--- a/src/oidcmsg/__init__.py
+++ b/src/oidcmsg/__init__.py
@@ -24,6 +24,8 @@ def proper_path(path):
             path = path[1:]
         if path.startswith("/"):
             path = ".%s" % path
+        else:
+            path = "./%s" % path
     else:
         path = "./%s" % path
 
-- 
2.43.0


From a2354ca37528c525ca00eeffc33ee3967c3a62fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 26/61] fix: do not accept an object as the value of a list
 parameter

---
 src/oidcmsg/message.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index ccd783e..27b787d 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -385,8 +385,12 @@ class Message(MutableMapping):
                     val = _deser(val, sformat="dict")
                 except Exception as exc:
                     raise DecodeError(ERRTXT % (key, exc))
-                else:
-                    self._dict[skey] = val
+
+                if isinstance(val, vtype):
+                    val = [val]
+                if not isinstance(val, list):
+                    raise DecodeError(ERRTXT % (key, "type != %s" % vtype))
+                self._dict[skey] = val
             else:
                 raise DecodeError(ERRTXT % (key, "type != %s" % vtype))
         else:
-- 
2.43.0


From 0b7d8f2b07d5ba8d9892652cbf486408d60c7ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 27/61] fix: only accept objects as values of parameters that
 are objects

---
 src/oidcmsg/message.py       | 5 ++++-
 src/oidcmsg/oidc/__init__.py | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 27b787d..50e5108 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -905,7 +905,10 @@ def json_serializer(obj, sformat="urlencoded", lev=0):
 
 
 def json_deserializer(txt, sformat="urlencoded"):
-    return json.loads(txt)
+    val = json.loads(txt)
+    if not isinstance(val, dict):
+        raise ValueError("Not a JSON object")
+    return val
 
 
 def msg_deser(val, sformat="urlencoded"):
diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 31c332a..4bea3fd 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -37,6 +37,7 @@ from oidcmsg.message import SINGLE_OPTIONAL_JSON
 from oidcmsg.message import SINGLE_OPTIONAL_STRING
 from oidcmsg.message import SINGLE_REQUIRED_STRING
 from oidcmsg.message import Message
+from oidcmsg.message import json_deserializer
 from oidcmsg.message import msg_ser
 from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.time_util import utc_time_sans_frac
@@ -214,7 +215,7 @@ SINGLE_OPTIONAL_REGISTRATION_REQUEST = (Message, False, msg_ser,
 SINGLE_OPTIONAL_CLAIMSREQ = (Message, False, msg_ser_json, claims_request_deser,
                              False)
 
-SINGLE_OPTIONAL_DICT = (dict, False, msg_ser_json, dict_deser, False)
+SINGLE_OPTIONAL_DICT = (dict, False, msg_ser_json, json_deserializer, False)
 
 # ----------------------------------------------------------------------------
 
-- 
2.43.0


From 2dd4001099702d84f2ac20cf0f1ccf1da93607db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:01 +0000
Subject: [PATCH 28/61] fix: verify the parameters of JWT secured and pushed
 authorization requests

---
 src/oidcmsg/oauth2/__init__.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index b668a8b..80b7b2b 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -329,11 +329,11 @@ class JWTSecuredAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
@@ -345,6 +345,7 @@ class JWTSecuredAuthorizationRequest(AuthorizationRequest):
             _req = AuthorizationRequest().from_jwt(str(self["request"]), **args)
             self.merge(_req, 'strict')
             self[_vc_name] = _req
+            return super(JWTSecuredAuthorizationRequest, self).verify(**kwargs)
         elif "request_uri" not in self:
             raise MissingAttribute("One of request or request_uri must be present")
 
@@ -358,11 +359,11 @@ class PushedAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
@@ -375,7 +376,7 @@ class PushedAuthorizationRequest(AuthorizationRequest):
             self.merge(_req, "lax")
             self[_vc_name] = _req
 
-        return True
+        return super(PushedAuthorizationRequest, self).verify(**kwargs)
 
 
 class SecurityEventToken(Message):
-- 
2.43.0


From e569ed26ffbb53c93c4e67cfd01fa2baafcb5302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:12 +0000
Subject: [PATCH 29/61] fix: drop verified claims that a request object
 supplies

---
 src/oidcmsg/oidc/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 4bea3fd..e898fb8 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -475,6 +475,8 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
                         del self[key]
 
                 self.update(oidr)
+                # the request object can not vouch for what it contains
+                clear_verified_claims(self)
 
                 # replace the JWT with the parsed and verified instance
                 self[verified_claim_name("request")] = oidr
-- 
2.43.0


From 59d8e3b212739b7b2f897b55db7f7cbc6a637353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 30/61] fix: do not accept an unsigned JWT when a signing
 algorithm is demanded

---
 src/oidcmsg/message.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 50e5108..8186894 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -8,6 +8,7 @@ from urllib.parse import urlencode
 from cryptojwt.jwe.jwe import JWE
 from cryptojwt.jwe.jwe import factory as jwe_factory
 from cryptojwt.jws.exception import NoSuitableSigningKeys
+from cryptojwt.jws.exception import SignerAlgError
 from cryptojwt.jws.jws import JWS
 from cryptojwt.jws.jws import factory as jws_factory
 from cryptojwt.utils import as_unicode
@@ -521,6 +522,9 @@ class Message(MutableMapping):
                 txt = as_unicode(_res)
             self.jwe_header = _decryptor.jwt.headers
 
+        # a demanded signature algorithm is a demand for a signature
+        _signed = kwargs.get('sigalg') not in [None, "", "none"]
+
         if kwargs.get('sigalg'):
             _verifier = jws_factory(txt, alg=kwargs['sigalg'])
         else:
@@ -538,7 +542,8 @@ class Message(MutableMapping):
             logger.debug("Raw JSON: %s", jso)
             logger.debug("JWS header: %s", _header)
             if _header["alg"] == "none":
-                pass
+                if verify and _signed:
+                    raise SignerAlgError("Unsigned, expected {}".format(kwargs['sigalg']))
             elif verify:
                 if keyjar:
                     key.extend(keyjar.get_jwt_verify_keys(_jwt, **kwargs))
@@ -559,6 +564,8 @@ class Message(MutableMapping):
 
             self.jws_header = _jwt.headers
         else:
+            if verify and _signed:
+                raise SignerAlgError("Unsigned, expected {}".format(kwargs['sigalg']))
             jso = json.loads(txt)
 
         self.jwt = txt
-- 
2.43.0


From 628d6113d3049267b2aff914c9eac7095811ee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:03 +0000
Subject: [PATCH 31/61] fix: an empty whitelist keeps no request parameters

---
 src/oidcmsg/oauth2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 80b7b2b..1bcd0a7 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -127,10 +127,10 @@ class AuthorizationRequest(Message):
                     del self[param]
         elif treatement == "lax":
             pass
-        elif treatement == "whitelist" and whitelist:
+        elif treatement == "whitelist":
             params = list(self.keys())
             for param in params:
-                if param not in whitelist:
+                if param not in (whitelist or []):
                     del self[param]
 
         self.update(request_object)
-- 
2.43.0


From 1f9bc9f2f8e1f56142cd2153e516912ff24af85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:30 +0000
Subject: [PATCH 32/61] fix: apply the parameter rules to what a request object
 puts into an authorization request

---
 src/oidcmsg/oidc/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index e898fb8..bcdd070 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -478,6 +478,9 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
                 # the request object can not vouch for what it contains
                 clear_verified_claims(self)
 
+                # what counts now is what the request object said
+                super(AuthorizationRequest, self).verify(**kwargs)
+
                 # replace the JWT with the parsed and verified instance
                 self[verified_claim_name("request")] = oidr
 
-- 
2.43.0


From a624cd079547d5f9f7cd889c761ad5b5992e341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:50 +0000
Subject: [PATCH 33/61] fix: check the error description of AS metadata
 responses as of other responses

---
 src/oidcmsg/oauth2/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 1bcd0a7..ce75182 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -238,7 +238,7 @@ class ResourceRequest(Message):
     c_param = {"access_token": SINGLE_OPTIONAL_STRING}
 
 
-class ASConfigurationResponse(Message):
+class ASConfigurationResponse(ResponseMessage):
     """
     Authorization Server configuration response
     """
-- 
2.43.0


From ae4cc825c713bdad42a71859077f70e6a6f8e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:03 +0000
Subject: [PATCH 34/61] fix: allow_http=False does not allow http issuers

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index bcdd070..2ad401d 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -931,7 +931,7 @@ class ProviderConfigurationResponse(ResponseMessage):
                 check_char_set(scope, SCOPE_CHARSET)
 
         parts = urlparse(self["issuer"])
-        if 'allow_http' in kwargs:
+        if kwargs.get('allow_http'):
             pass
         elif parts.scheme != "https":
             raise SchemeError("Not HTTPS")
-- 
2.43.0


From 4d6f2c7b7af831cd873ab11976555dbf1a2570e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:39 +0000
Subject: [PATCH 35/61] fix: birthdate digits have to be ASCII and zero padded

---
 src/oidcmsg/oidc/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 2ad401d..486d478 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -2,6 +2,7 @@
 import inspect
 import json
 import logging
+import re
 import sys
 import time
 from urllib.parse import urlencode
@@ -581,6 +582,9 @@ class OpenIDSchema(ResponseMessage):
 
         if "birthdate" in self:
             # Either YYYY-MM-DD or just YYYY or 0000-MM-DD
+            if not re.fullmatch("[0-9]{4}(-[0-9]{2}-[0-9]{2})?", self["birthdate"]):
+                raise VerificationError("Birthdate format error", self)
+
             try:
                 time.strptime(self["birthdate"], "%Y-%m-%d")
             except ValueError:
-- 
2.43.0


From 531146bed101b50fe18178757a29c74d35b2d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:43 +0000
Subject: [PATCH 36/61] fix: a null birthdate is a null claim, not a crash

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 486d478..8d093c9 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -580,7 +580,7 @@ class OpenIDSchema(ResponseMessage):
     def verify(self, **kwargs):
         super(OpenIDSchema, self).verify(**kwargs)
 
-        if "birthdate" in self:
+        if self.get("birthdate") is not None:
             # Either YYYY-MM-DD or just YYYY or 0000-MM-DD
             if not re.fullmatch("[0-9]{4}(-[0-9]{2}-[0-9]{2})?", self["birthdate"]):
                 raise VerificationError("Birthdate format error", self)
-- 
2.43.0


From 8227c5affa9b08757fafb5bf19b216cbdac8156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:15 +0000
Subject: [PATCH 37/61] fix: claims_match ignores members of a claim request it
 does not know

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 8d093c9..bad3056 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -1229,7 +1229,7 @@ def claims_match(value, claimspec):
             break
 
     # No values to test against so it's just about being there or not
-    if list(claimspec.keys()) == ['essential']:
+    if 'value' not in claimspec and 'values' not in claimspec:
         return True
 
     return matched
-- 
2.43.0


From 1ab8afab3738d4a94ee9fed0548d7a149f64c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:46 +0000
Subject: [PATCH 38/61] fix: the time stamp 0 is 1970-01-01, not the present

---
 src/oidcmsg/oidc/identity_assurance.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index ebde830..d069e96 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -51,13 +51,13 @@ TIME_FORMAT = "%Y-%m-%dT%H:%M:%S%z"
 DATE_FORMAT = "%Y-%m-%d"
 
 
-def to_iso8601_2004(val=0, format=TIME_FORMAT):
+def to_iso8601_2004(val=None, format=TIME_FORMAT):
     """
-    :param val: integer/float/datetime.datetime
+    :param val: integer/float/datetime.datetime, the present time if None
     :return: A string following the DATE_FORMAT format
     """
 
-    if val:
+    if val is not None:
         if isinstance(val, datetime.datetime):
             d = val
         elif isinstance(val, (int, float)):
@@ -83,11 +83,11 @@ def from_iso8601_2004(isotime, format=TIME_FORMAT):
     return d.timestamp()
 
 
-def to_iso8601_2004_time(val=0):
+def to_iso8601_2004_time(val=None):
     return to_iso8601_2004(val, format=TIME_FORMAT)
 
 
-def to_iso8601_2004_date(val=0):
+def to_iso8601_2004_date(val=None):
     return to_iso8601_2004(val, format=DATE_FORMAT)
 
 
-- 
2.43.0


From 82da76648c53c237b376dd5781b8d3e9ae865347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 39/61] fix: falsy values and empty purposes of verified claims
 requests are checked too

---
 src/oidcmsg/oidc/identity_assurance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index d069e96..08279f3 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -434,7 +434,7 @@ def _verify_claims_request_value(value, value_type=str):
             return False
 
         _v = value.get("value")
-        if _v:
+        if _v is not None:
             if not _correct_value_type(_v, value_type):
                 return False
 
@@ -444,7 +444,7 @@ def _verify_claims_request_value(value, value_type=str):
                 return False
 
         _p = value.get("purpose")
-        if _p:
+        if _p is not None:
             if len(_p) < 3 or len(_p) > 300:
                 return False
             if not all(x in error_chars for x in _p):
-- 
2.43.0


From 775f7138179585d4ef4d8d1c32056314874e9748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 40/61] fix: a value that is not text leaves the stored value
 untouched

---
 src/oidcmsg/storage/abfile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 07fcf5d..c512842 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -1,3 +1,4 @@
+import locale
 import logging
 import os
 import time
@@ -117,11 +118,11 @@ class AbstractFileSystem(Storage):
 
         fname = os.path.join(self.fdir, _key)
         # If this fails the present value must be left untouched
-        _value = self.value_conv.serialize(value)
+        _value = self.value_conv.serialize(value).encode(locale.getpreferredencoding(False))
 
         lock = FileLock('{}.lock'.format(fname))
         with lock:
-            with open(fname, 'w', newline='') as fp:
+            with open(fname, 'wb') as fp:
                 fp.write(_value)
             # Has to be the time of this write, not that of a later one
             self.fmtime[_key] = self.get_mtime(fname)
-- 
2.43.0


From b3c36ae058aeea0e51f68e154fce85dc729103e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:49 +0000
Subject: [PATCH 41/61] fix: keys that look like a lock file or a directory are
 stored like any other

---
 src/oidcmsg/storage/converter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/converter.py b/src/oidcmsg/storage/converter.py
index 018d03d..92474a5 100644
--- a/src/oidcmsg/storage/converter.py
+++ b/src/oidcmsg/storage/converter.py
@@ -5,7 +5,11 @@ from urllib.parse import unquote_plus
 
 class QPKey:
     def serialize(self, str):
-        return quote_plus(str)
+        _name = quote_plus(str)
+        if _name in ('.', '..') or _name.endswith('.lock'):
+            # These names mean something else: a directory or the lock of another file
+            _name = _name.replace('.', '%2E')
+        return _name
 
     def deserialize(self, str):
         return unquote_plus(str)
-- 
2.43.0


From e4d1c2d795117243ac2cf7dd9777899359247fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:03 +0000
Subject: [PATCH 42/61] fix: a refused update of the SQL storage does not leave
 the database locked

---
 src/oidcmsg/storage/absqlalchemy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 96c2040..0d022a2 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -44,8 +44,12 @@ class AbstractStorageSQLAlchemy:
         upquery = self.table.update(). \
             where(self.table.c.owner == k). \
             values(**{'data': v})
-        self.session.execute(upquery)
-        self.session.commit()
+        try:
+            self.session.execute(upquery)
+            self.session.commit()
+        except Exception:  # or the database stays locked
+            self.session.rollback()
+            raise
         return 1
 
     def delete(self, v):
-- 
2.43.0


From 29fbbf28d85dbadb1f2c5fc3b40affc9904d16d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:16 +0000
Subject: [PATCH 43/61] fix: text after a duration, and numbers that are not
 digits, are not parsed as a duration

---
 src/oidcmsg/time_util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index 4443e3e..07fbf20 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -73,6 +73,10 @@ D_FORMAT = [
     ("S", "tm_sec")
 ]
 
+DURATION = re.compile(
+        r"-?P([0-9]+Y)?([0-9]+M)?([0-9]+D)?"
+        r"(T([0-9]+H)?([0-9]+M)?([0-9]+(\.[0-9]+)?S)?)?\Z")
+
 
 def parse_duration(duration):
     # (-)PnYnMnDTnHnMnS
@@ -86,6 +90,9 @@ def parse_duration(duration):
         raise ValueError('duration index {} != "P"'.format(duration[index]))
     index += 1
 
+    if not DURATION.match(duration):
+        raise TimeUtilError("Not a duration: {}".format(duration))
+
     dic = dict([(typ, 0) for (code, typ) in D_FORMAT])
 
     # 'M' means months before the 'T' and minutes after it
-- 
2.43.0


From 5ea09627c1eeca297bde9d4a4ff83b2eba8fc642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:18 +0000
Subject: [PATCH 44/61] fix: adding a duration does not depend on the local
 time zone and works with fractional seconds

---
 src/oidcmsg/time_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index 07fbf20..0339997 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -178,8 +178,9 @@ def add_duration(tid, duration):
             month = modulo(temp, 1, 13)
             year += f_quotient(temp, 1, 13)
 
-        return time.localtime(time.mktime((year, month, days, hour, minutes,
-                                           secs, 0, 0, -1)))
+        # UTC in, UTC out
+        return time.gmtime(calendar.timegm((year, month, days, hour, minutes,
+                                            secs, 0, 0, 0)))
     else:
         pass
 
-- 
2.43.0


From bfdea97c17e8e1775d11d02e12681def5658c642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:03 +0000
Subject: [PATCH 45/61] fix: adding months to the last days of a month stays
 within the resulting month

---
 src/oidcmsg/time_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index 0339997..e079228 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -165,7 +165,9 @@ def add_duration(tid, duration):
             temp_days = 1
         else:
             temp_days = dur["tm_mday"]
-        days = temp_days + tid.tm_mday + carry
+        # the resulting month may be shorter than the one we started in
+        mday = min(tid.tm_mday, maximum_day_in_month_for(year, month))
+        days = temp_days + mday + carry
         while True:
             if days < 1:
                 pass
-- 
2.43.0


From 6b5197879c8c34b0e952fcf3c99d86f56853d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:05 +0000
Subject: [PATCH 46/61] fix: messages and lists of messages inside a form
 encoded message can be read back

---
 src/oidcmsg/message.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 8186894..e7bcb43 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -921,6 +921,9 @@ def json_deserializer(txt, sformat="urlencoded"):
 def msg_deser(val, sformat="urlencoded"):
     if isinstance(val, Message):
         return val
+    elif sformat == "urlencoded" and isinstance(val, str) and val.lstrip().startswith("{"):
+        # that is how a message inside a message is form encoded
+        return Message().from_json(val)
     elif sformat in ["dict", "json"]:
         if not isinstance(val, str):
             val = json.dumps(val)
@@ -958,6 +961,10 @@ def msg_list_deser(val, sformat="urlencoded", lev=0):
     if isinstance(val, dict):
         return [Message(**val)]
 
+    if sformat == "urlencoded" and isinstance(val, str):
+        val = json.loads(val)
+        sformat = "dict"
+
     _res = []
     for v in val:
         _res.append(msg_deser(v, sformat))
@@ -965,6 +972,9 @@ def msg_list_deser(val, sformat="urlencoded", lev=0):
 
 
 def msg_list_ser(val, sformat="urlencoded", lev=0):
+    if sformat == "urlencoded":
+        return json.dumps([msg_ser(v, "dict", lev) for v in val])
+
     _res = []
     for v in val:
         _res.append(msg_ser(v, sformat))
-- 
2.43.0


From 2d4deaf0b64d5c0ce101d81f9d4177e27ea1e74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:12 +0000
Subject: [PATCH 47/61] fix: a single value of a list parameter without
 deserializer is kept as a list

---
 src/oidcmsg/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index e7bcb43..b67203b 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -358,7 +358,7 @@ class Message(MutableMapping):
                     except Exception as exc:
                         raise DecodeError(ERRTXT % (key, exc))
                 else:
-                    setattr(self, skey, [val])
+                    self._dict[skey] = [val]
             elif isinstance(val, list):
                 if _deser:
                     try:
-- 
2.43.0


From 86bbce9d72fdb54eb00bb19f2c0ccd203660cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:29 +0000
Subject: [PATCH 48/61] fix: lists of objects can be form encoded and a single
 object is kept as a list

---
 src/oidcmsg/message.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index b67203b..793701c 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -876,11 +876,23 @@ def list_serializer(vals, sformat="urlencoded", lev=0):
     if isinstance(vals, str) or not isinstance(vals, list):
         raise ValueError("Expected list: %s" % vals)
     if sformat == "urlencoded":
+        if any(isinstance(v, dict) for v in vals):
+            return json.dumps(vals)
         return " ".join(vals)
     else:
         return vals
 
 
+def dict_list_deserializer(val, sformat="urlencoded"):
+    if isinstance(val, str):
+        val = json.loads(val)
+    if isinstance(val, dict):
+        return [val]
+    if not isinstance(val, list) or not all(isinstance(v, dict) for v in val):
+        raise ValueError("Expected list of objects: %s" % (val,))
+    return val
+
+
 def list_deserializer(val, sformat="urlencoded"):
     if sformat == "urlencoded":
         if isinstance(val, str):
@@ -958,13 +970,13 @@ def msg_ser(inst, sformat, lev=0):
 
 
 def msg_list_deser(val, sformat="urlencoded", lev=0):
-    if isinstance(val, dict):
-        return [Message(**val)]
-
     if sformat == "urlencoded" and isinstance(val, str):
         val = json.loads(val)
         sformat = "dict"
 
+    if isinstance(val, dict):
+        return [Message(**val)]
+
     _res = []
     for v in val:
         _res.append(msg_deser(v, sformat))
@@ -1040,5 +1052,5 @@ def any_deser(val, sformat="urlencoded", lev=0):
 
 
 SINGLE_OPTIONAL_ANY = (any, False, any_ser, any_deser, False)
-REQUIRED_LIST_OF_DICTS = ([dict], True, list_serializer, list_deserializer, False)
-OPTIONAL_LIST_OF_DICTS = ([dict], False, list_serializer, list_deserializer, False)
+REQUIRED_LIST_OF_DICTS = ([dict], True, list_serializer, dict_list_deserializer, False)
+OPTIONAL_LIST_OF_DICTS = ([dict], False, list_serializer, dict_list_deserializer, False)
-- 
2.43.0


From 68aa3a5602925a668f66f29e5502acaf93144211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:45 +0000
Subject: [PATCH 49/61] fix: an audience that is a text is compared as a whole
 in authorization responses

---
 src/oidcmsg/oidc/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index bad3056..1b96163 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -378,8 +378,9 @@ class AuthorizationResponse(oauth2.AuthorizationResponse,
 
         if "aud" in self:
             if "client_id" in kwargs:
-                # check that it's for me
-                if kwargs["client_id"] not in self["aud"]:
+                # check that it's for me, aud is one audience or a list of them
+                _aud = self["aud"]
+                if kwargs["client_id"] not in ([_aud] if isinstance(_aud, str) else _aud):
                     return False
 
         if "id_token" in self:
-- 
2.43.0


From 9344bc7542fbbd5b1d729611cac3df0cd9a5737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:50 +0000
Subject: [PATCH 50/61] fix: an access token request with a device code needs
 no code and redirect URI

---
 src/oidcmsg/oauth2/device_authorization.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/oauth2/device_authorization.py b/src/oidcmsg/oauth2/device_authorization.py
index c8a1aad..336934f 100644
--- a/src/oidcmsg/oauth2/device_authorization.py
+++ b/src/oidcmsg/oauth2/device_authorization.py
@@ -26,13 +26,25 @@ class AuthorizationResponse(Message):
 
 
 class AccessTokenRequest(oidc.AccessTokenRequest):
+    c_param = oidc.AccessTokenRequest.c_param.copy()
+    c_param.update({
+        "device_code": SINGLE_OPTIONAL_STRING,
+        # not part of a request with a device code
+        "code": SINGLE_OPTIONAL_STRING,
+        "redirect_uri": SINGLE_OPTIONAL_STRING,
+    })
+
     def verify(self, **kwargs):
         super(AccessTokenRequest, self).verify(**kwargs)
 
         if "device_code" in self:
             # then both client_id and grant_type MUST be present
-            for claim in ["grant_type", "client_id"]:
-                if claim not in self:
-                    raise MissingRequiredAttribute(claim)
+            _required = ["grant_type", "client_id"]
+        else:
+            _required = ["code", "redirect_uri"]
+
+        for claim in _required:
+            if not self.get(claim):
+                raise MissingRequiredAttribute(claim)
 
         return True
-- 
2.43.0


From 5b7f20aea02c9f39d07a08a7f507012b94657dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:21 +0000
Subject: [PATCH 51/61] fix: a file that could not be read is read again, not
 answered from the cache

---
 src/oidcmsg/storage/abfile.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index c512842..1649ad9 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -92,7 +92,12 @@ class AbstractFileSystem(Storage):
         if self.is_changed(item):
             logger.info("File content change in {}".format(item))
             fname = os.path.join(self.fdir, item)
-            self.storage[item] = self._read_info(fname)
+            try:
+                self.storage[item] = self._read_info(fname)
+            except Exception:
+                # What was there before is history, read again next time
+                self._forget(item)
+                raise
 
         logger.debug('Read from "%s"', item)
         return self.storage[item]
@@ -222,6 +227,15 @@ class AbstractFileSystem(Storage):
             logger.error('No such file: {}'.format(fname))
         return None
 
+    def _forget(self, key):
+        """
+        Remove what the cache knows about a file.
+
+        :param key: The serialized key, that is the name of the file
+        """
+        self.storage.pop(key, None)
+        self.fmtime.pop(key, None)
+
     def synch(self):
         """
         Goes through the directory and builds a local cache based on
@@ -247,7 +261,11 @@ class AbstractFileSystem(Storage):
 
             if f in self.fmtime:
                 if self.is_changed(f):
-                    self.storage[f] = self._read_info(fname)
+                    try:
+                        self.storage[f] = self._read_info(fname)
+                    except Exception:
+                        self._forget(f)
+                        raise
             else:
                 mtime = self.get_mtime(fname)
                 try:
-- 
2.43.0


From 47998ddf6afd543ac12b37010bf3cd80e35d4d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:25 +0000
Subject: [PATCH 52/61] fix: a file written after the clock was set back has
 changed as well

---
 src/oidcmsg/storage/abfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 1649ad9..b593aed 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -204,7 +204,7 @@ class AbstractFileSystem(Storage):
                 self.fmtime[item] = mtime
                 return True
 
-            if mtime > _ftime:  # has changed
+            if mtime != _ftime:  # has changed, clocks can go backwards
                 self.fmtime[item] = mtime
                 return True
             else:
-- 
2.43.0


From 4731f88a919bc02730bfaa622a4586ce00036cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:30 +0000
Subject: [PATCH 53/61] fix: a write that stops half way does not take the
 stored value with it

---
 src/oidcmsg/storage/abfile.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index b593aed..f48ef88 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -1,7 +1,9 @@
 import locale
 import logging
 import os
+import shutil
 import time
+import uuid
 
 from filelock import FileLock
 
@@ -125,10 +127,20 @@ class AbstractFileSystem(Storage):
         # If this fails the present value must be left untouched
         _value = self.value_conv.serialize(value).encode(locale.getpreferredencoding(False))
 
+        # Written beside it first, a write that stops half way must not take the present value with it
+        _tmp = os.path.join(self.fdir, '{}.lock'.format(uuid.uuid4().hex))
         lock = FileLock('{}.lock'.format(fname))
         with lock:
-            with open(fname, 'wb') as fp:
-                fp.write(_value)
+            try:
+                with open(_tmp, 'wb') as fp:
+                    fp.write(_value)
+                if os.path.isfile(fname):
+                    shutil.copymode(fname, _tmp)
+                os.replace(_tmp, fname)
+            except Exception:
+                if os.path.isfile(_tmp):
+                    os.unlink(_tmp)
+                raise
             # Has to be the time of this write, not that of a later one
             self.fmtime[_key] = self.get_mtime(fname)
 
-- 
2.43.0


From 1d351dd0ced943389a1f72732012ee7696d78b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:33 +0000
Subject: [PATCH 54/61] fix: a deletion that fails does not leave the database
 locked

---
 src/oidcmsg/storage/absqlalchemy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 0d022a2..cb07fdb 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -58,8 +58,12 @@ class AbstractStorageSQLAlchemy:
         """
         delquery = self.table.delete().where(self.table.c.owner == v)
         n_entries = self.session.query(self.table).filter(self.table.c.owner == v).count()
-        self.session.execute(delquery)
-        self.session.commit()
+        try:
+            self.session.execute(delquery)
+            self.session.commit()
+        except Exception:  # or the database stays locked
+            self.session.rollback()
+            raise
         return n_entries
 
     def __contains__(self, k):
-- 
2.43.0


From 3f0c8f0d0bf6cd4d4ef19c7f9ba680941591935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:36 +0000
Subject: [PATCH 55/61] fix: evidence given as messages or as a single object
 becomes evidence

---
 src/oidcmsg/oidc/identity_assurance.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 08279f3..eadde36 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -271,12 +271,14 @@ class Evidence(Message):
 
 
 def evidence_deser(val, sformat="urlencoded"):
+    if isinstance(val, Message):
+        return val
     return deserialize_from_one_of(val, Evidence, sformat)
 
 
 def evidence_list_deser(val, sformat="urlencoded", lev=0):
-    if isinstance(val, dict):
-        return [Message(**val)]
+    if isinstance(val, (dict, Message)):
+        val = [val]
 
     _res = [evidence_deser(v, sformat) for v in val]
     return _res
-- 
2.43.0


From 8116634df3f8d92e854a484bc67d4c2e7f555480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:03 +0000
Subject: [PATCH 56/61] fix: a null object does not keep a message from being
 passed on

---
 src/oidcmsg/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 793701c..8d4b820 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -259,7 +259,7 @@ class Message(MutableMapping):
                     except KeyError:
                         _ser = None
 
-            if _ser:
+            if _ser and val is not None:
                 val = _ser(val, "dict", lev)
 
             if isinstance(val, Message):
-- 
2.43.0


From 6016abbd618c78a9d74c9f821dfc14e46795d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:07 +0000
Subject: [PATCH 57/61] fix: JSON objects are objects in dictionaries, JSON and
 tokens

---
 src/oidcmsg/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 8d4b820..594b62c 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -920,6 +920,8 @@ def sp_sep_list_deserializer(val, sformat="urlencoded"):
 
 
 def json_serializer(obj, sformat="urlencoded", lev=0):
+    if sformat == "dict":  # JSON text only where there are no objects
+        return obj
     return json.dumps(obj)
 
 
-- 
2.43.0


From fc7218c66021c1e8afddbd44b86c928acde98cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:10 +0000
Subject: [PATCH 58/61] fix: messages in mixed lists become dictionaries as
 well

---
 src/oidcmsg/message.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 594b62c..d7f23d2 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -264,9 +264,8 @@ class Message(MutableMapping):
 
             if isinstance(val, Message):
                 _res[key] = val.to_dict(lev + 1)
-            elif isinstance(val, list) and isinstance(
-                    next(iter(val or []), None), Message):
-                _res[key] = [v.to_dict(lev) for v in val]
+            elif isinstance(val, list) and any(isinstance(v, Message) for v in val):
+                _res[key] = [v.to_dict(lev) if isinstance(v, Message) else v for v in val]
             else:
                 _res[key] = val
 
-- 
2.43.0


From d021f8d7aea5a7a7e9fa1ddfdde4acc35bdee65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:13 +0000
Subject: [PATCH 59/61] fix: entries that other processes remove meanwhile are
 missing, not failures

---
 src/oidcmsg/storage/abfile.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index f48ef88..db4df3c 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -72,7 +72,7 @@ class AbstractFileSystem(Storage):
             self.value_conv = PassThru()
 
         if not os.path.isdir(self.fdir):
-            os.makedirs(self.fdir)
+            os.makedirs(self.fdir, exist_ok=True)
 
         self.synch()
 
@@ -165,7 +165,10 @@ class AbstractFileSystem(Storage):
         if os.path.isfile(fname):
             lock = FileLock('{}.lock'.format(fname))
             with lock:
-                os.unlink(fname)
+                try:
+                    os.unlink(fname)
+                except FileNotFoundError:  # someone else was faster
+                    pass
 
         try:
             del self.storage[key]
@@ -208,7 +211,10 @@ class AbstractFileSystem(Storage):
         """
         fname = os.path.join(self.fdir, item)
         if os.path.isfile(fname):
-            mtime = self.get_mtime(fname)
+            try:
+                mtime = self.get_mtime(fname)
+            except FileNotFoundError:  # someone else removed it just now
+                raise KeyError(item)
 
             try:
                 _ftime = self.fmtime[item]
@@ -232,12 +238,14 @@ class AbstractFileSystem(Storage):
                 with lock:
                     info = open(fname, 'r', newline='').read().strip()
                 return self.value_conv.deserialize(info)
+            except FileNotFoundError:  # someone else removed it just now
+                pass
             except Exception as err:
                 logger.error(err)
                 raise
         else:
             logger.error('No such file: {}'.format(fname))
-        return None
+        raise KeyError(os.path.basename(fname))
 
     def _forget(self, key):
         """
@@ -254,7 +262,7 @@ class AbstractFileSystem(Storage):
         the content of the directory.
         """
         if not os.path.isdir(self.fdir):
-            os.makedirs(self.fdir)
+            os.makedirs(self.fdir, exist_ok=True)
             # raise ValueError('No such directory: {}'.format(self.fdir))
 
         # Forget about files that someone else has removed
@@ -272,15 +280,17 @@ class AbstractFileSystem(Storage):
                 continue
 
             if f in self.fmtime:
-                if self.is_changed(f):
-                    try:
+                try:
+                    if self.is_changed(f):
                         self.storage[f] = self._read_info(fname)
-                    except Exception:
-                        self._forget(f)
-                        raise
+                except KeyError:  # someone else removed it just now
+                    self._forget(f)
+                except Exception:
+                    self._forget(f)
+                    raise
             else:
-                mtime = self.get_mtime(fname)
                 try:
+                    mtime = self.get_mtime(fname)
                     self.storage[f] = self._read_info(fname)
                 except Exception as err:
                     logger.warning('Bad content in {} ({})'.format(fname, err))
-- 
2.43.0


From fca5aea43b967bb2a2ae3bf6f4823196614c3ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:17 +0000
Subject: [PATCH 60/61] fix: delete counts what it removed, not what was there
 before

---
 src/oidcmsg/storage/absqlalchemy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index cb07fdb..2f1d084 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -57,9 +57,8 @@ class AbstractStorageSQLAlchemy:
         return the count of deleted objects
         """
         delquery = self.table.delete().where(self.table.c.owner == v)
-        n_entries = self.session.query(self.table).filter(self.table.c.owner == v).count()
         try:
-            self.session.execute(delquery)
+            n_entries = self.session.execute(delquery).rowcount
             self.session.commit()
         except Exception:  # or the database stays locked
             self.session.rollback()
-- 
2.43.0


From 4a5177bb0fd24fb0abde1c87575e11796e579034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:12 +0000
Subject: [PATCH 61/61] fix: JSON text of a nested message in a form is not
 read as a form

---
 src/oidcmsg/oidc/__init__.py           |  9 +++---
 src/oidcmsg/oidc/identity_assurance.py | 42 +++++---------------------
 2 files changed, 11 insertions(+), 40 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 1b96163..52eee0b 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -71,6 +71,9 @@ def deserialize_from_one_of(val, msgtype, sformat):
         flist = ['json', 'urlencoded']
         if not isinstance(val, str):
             val = json.dumps(val)
+    elif isinstance(val, str) and val.lstrip().startswith('{'):
+        # what looks like a JSON object isn't a form, whatever its texts contain
+        flist = ['json', 'urlencoded']
     else:
         flist = ['urlencoded', 'json']
 
@@ -1074,11 +1077,7 @@ class Link(Message):
 def _l_deser(val, sformat):
     if isinstance(val, Link):
         return val
-    elif sformat in ["dict", "json"]:
-        if not isinstance(val, str):
-            val = json.dumps(val)
-            sformat = "json"
-    return Link().deserialize(val, sformat)
+    return deserialize_from_one_of(val, Link, sformat)
 
 
 def link_deser(val, sformat="urlencoded"):
diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index eadde36..f19f722 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -181,11 +181,7 @@ class Verifier(Message):
 def verifier_deser(val, sformat="urlencoded"):
     if isinstance(val, Message):
         return val
-    elif sformat in ["dict", "json"]:
-        if not isinstance(val, str):
-            val = json.dumps(val)
-            sformat = "json"
-    return Verifier().deserialize(val, sformat)
+    return deserialize_from_one_of(val, Verifier, sformat)
 
 
 REQUIRED_VERIFIER = (Verifier, True, msg_ser, verifier_deser, False)
@@ -201,11 +197,7 @@ class Issuer(Message):
 def issuer_deser(val, sformat="urlencoded"):
     if isinstance(val, Message):
         return val
-    elif sformat in ["dict", "json"]:
-        if not isinstance(val, str):
-            val = json.dumps(val)
-            sformat = "json"
-    return Issuer().deserialize(val, sformat)
+    return deserialize_from_one_of(val, Issuer, sformat)
 
 
 REQUIRED_ISSUER = (Issuer, True, msg_ser, issuer_deser, False)
@@ -300,11 +292,7 @@ class IdDocument(Evidence):
 def id_document_deser(val, sformat="urlencoded"):
     if isinstance(val, Message):
         return val
-    elif sformat in ["dict", "json"]:
-        if not isinstance(val, str):
-            val = json.dumps(val)
-            sformat = "json"
-    return IdDocument().deserialize(val, sformat)
+    return deserialize_from_one_of(val, IdDocument, sformat)
 
 
 REQUIRED_ID_DOCUMENT = (IdDocument, True, msg_ser, id_document_deser, False)
@@ -321,11 +309,7 @@ class Provider(AddressClaim):
 def provider_deser(val, sformat="urlencoded"):
     if isinstance(val, Message):
         return val
-    elif sformat in ["dict", "json"]:
-        if not isinstance(val, str):
-            val = json.dumps(val)
-            sformat = "json"
-    return Provider().deserialize(val, sformat)
+    return deserialize_from_one_of(val, Provider, sformat)
 
 
 REQUIRED_PROVIDER = (Provider, True, msg_ser, provider_deser, False)
@@ -342,11 +326,7 @@ class UtilityBill(Evidence):
 def utility_bill_deser(val, sformat="urlencoded"):
     if isinstance(val, Message):
         return val
-    elif sformat in ["dict", "json"]:
-        if not isinstance(val, str):
-            val = json.dumps(val)
-            sformat = "json"
-    return UtilityBill().deserialize(val, sformat)
+    return deserialize_from_one_of(val, UtilityBill, sformat)
 
 
 REQUIRED_UTILITY_BILL = (UtilityBill, True, msg_ser, utility_bill_deser, False)
@@ -365,11 +345,7 @@ class QES(Evidence):
 def qes_deser(val, sformat="urlencoded"):
     if isinstance(val, Message):
         return val
-    elif sformat in ["dict", "json"]:
-        if not isinstance(val, str):
-            val = json.dumps(val)
-            sformat = "json"
-    return QES().deserialize(val, sformat)
+    return deserialize_from_one_of(val, QES, sformat)
 
 
 REQUIRED_QES = (QES, True, msg_ser, qes_deser, False)
@@ -395,11 +371,7 @@ class VerificationElement(Message):
 def verification_element_deser(val, sformat="urlencoded"):
     if isinstance(val, Message):
         return val
-    elif sformat in ["dict", "json"]:
-        if not isinstance(val, str):
-            val = json.dumps(val)
-            sformat = "json"
-    return VerificationElement().deserialize(val, sformat)
+    return deserialize_from_one_of(val, VerificationElement, sformat)
 
 
 OPTIONAL_VERIFICATION_ELEMENT = (
-- 
2.43.0

