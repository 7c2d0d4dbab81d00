From eb3da744a4cb716552fbd11a9dba17f8e1c9b544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 01/50] fix: message instances must not share their mutable
 default values

---
 src/oidcmsg/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index f2991ed..b9969dd 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -36,7 +36,7 @@ class Message(MutableMapping):
 
     def __init__(self, set_defaults=True, **kwargs):
         if set_defaults:
-            self._dict = self.c_default.copy()
+            self._dict = copy.deepcopy(self.c_default)
         else:
             self._dict = {}
         self.lax = False
@@ -75,7 +75,7 @@ class Message(MutableMapping):
         Based on specification set a parameters value to the default value.
         """
         for key, val in self.c_default.items():
-            self._dict.setdefault(key, val)
+            self._dict.setdefault(key, copy.deepcopy(val))
 
     def to_urlencoded(self, lev=0):
         """
-- 
2.43.0


From 730ac66817fdaddce0e3875808c9f54d7f0bd654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 02/50] fix: OpenID error codes must not leak into the OAuth2
 error response

---
 src/oidcmsg/oidc/__init__.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index e21a7cb..c1dea28 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -390,15 +390,16 @@ class AuthorizationResponse(oauth2.AuthorizationResponse,
 class AuthorizationErrorResponse(oauth2.AuthorizationErrorResponse):
     c_allowed_values = oauth2.AuthorizationErrorResponse.c_allowed_values \
         .copy()
-    c_allowed_values["error"].extend(["interaction_required",
-                                      "login_required",
-                                      "session_selection_required",
-                                      "consent_required",
-                                      "invalid_request_uri",
-                                      "invalid_request_object",
-                                      "registration_not_supported",
-                                      "request_not_supported",
-                                      "request_uri_not_supported"])
+    c_allowed_values["error"] = c_allowed_values["error"] + [
+        "interaction_required",
+        "login_required",
+        "session_selection_required",
+        "consent_required",
+        "invalid_request_uri",
+        "invalid_request_object",
+        "registration_not_supported",
+        "request_not_supported",
+        "request_uri_not_supported"]
 
 
 class AuthorizationRequest(oauth2.AuthorizationRequest):
-- 
2.43.0


From 23258094b468b124ad0adfaa1f3a24f31d7e9d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:03 +0000
Subject: [PATCH 03/50] fix: never keep a received verified-request member in
 JAR and PAR requests

---
 src/oidcmsg/oauth2/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 30f65b0..8987e5c 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -329,11 +329,11 @@ class JWTSecuredAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
@@ -358,11 +358,11 @@ class PushedAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
-- 
2.43.0


From 214b79c5dc3b15ad30e7f5598141a774d3058aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:03 +0000
Subject: [PATCH 04/50] fix: JAR and PAR requests must check the required
 members

---
 src/oidcmsg/oauth2/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 8987e5c..917c8f4 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -345,6 +345,7 @@ class JWTSecuredAuthorizationRequest(AuthorizationRequest):
             _req = AuthorizationRequest().from_jwt(str(self["request"]), **args)
             self.merge(_req, 'strict')
             self[_vc_name] = _req
+            super(JWTSecuredAuthorizationRequest, self).verify(**kwargs)
         elif "request_uri" not in self:
             raise MissingAttribute("One of request or request_uri must be present")
 
@@ -375,6 +376,7 @@ class PushedAuthorizationRequest(AuthorizationRequest):
             self.merge(_req, "lax")
             self[_vc_name] = _req
 
+        super(PushedAuthorizationRequest, self).verify(**kwargs)
         return True
 
 
-- 
2.43.0


From a909908f383d50d2ad44869931b378e2b47ac5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:03 +0000
Subject: [PATCH 05/50] fix: a request object must not plant verified claims in
 an authorization request

---
 src/oidcmsg/oidc/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index c1dea28..58ce768 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -443,6 +443,7 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
         super(AuthorizationRequest, self).verify(**kwargs)
 
         clear_verified_claims(self)
+        self._dict.pop("verified_id_token_hint", None)
 
         args = {}
         for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
@@ -459,6 +460,8 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
             if isinstance(self["request"], str):
                 # Try to decode the JWT, checks the signature
                 oidr = OpenIDRequest().from_jwt(str(self["request"]), **args)
+                clear_verified_claims(oidr)
+                oidr._dict.pop("verified_id_token_hint", None)
 
                 # check if something is change in the original message
                 for key, val in oidr.items():
-- 
2.43.0


From 2978a4451bb4975f660804840f35c3fa24ca8c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 06/50] fix: check the request parameters that a request object
 brings in

---
 src/oidcmsg/oidc/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 58ce768..573333a 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -477,6 +477,7 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
                         del self[key]
 
                 self.update(oidr)
+                super(AuthorizationRequest, self).verify(**kwargs)
 
                 # replace the JWT with the parsed and verified instance
                 self[verified_claim_name("request")] = oidr
-- 
2.43.0


From 2ac8efab8b852267e3c88fe844d9b54a78a2535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 07/50] fix: the clock skew must widen the not-before check

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 573333a..5287531 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -988,7 +988,7 @@ class JsonWebToken(Message):
         except KeyError:
             pass
         else:
-            if _nbf > (_now - _skew):
+            if _nbf > (_now + _skew):
                 raise EXPError('Not valid yet')
 
         try:
-- 
2.43.0


From d3136dd6cfdd7783962fa485b9b8904e4c121a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 08/50] fix: allow the documented characters in error
 descriptions

---
 src/oidcmsg/oauth2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 917c8f4..c60d1c2 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -1,6 +1,5 @@
 import inspect
 import logging
-import string
 import sys
 
 from oidcmsg import verified_claim_name
@@ -28,7 +27,8 @@ def is_error_message(msg):
         return False
 
 
-error_chars = set(string.ascii_uppercase + string.ascii_lowercase + " " + "!")
+# %x20-21 / %x23-5B / %x5D-7E
+error_chars = set(chr(c) for c in range(0x20, 0x7F)) - set('"\\')
 
 
 class ResponseMessage(Message):
-- 
2.43.0


From 993369be9671c4d1fa1b72a0dc9d8548276ae13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 09/50] fix: '!' belongs to the scope character set

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 5287531..c9025ca 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -227,7 +227,7 @@ for char in ['\x21', ('\x23', '\x5b'), ('\x5d', '\x7E')]:
             SCOPE_CHARSET.append(c)
             c = chr(ord(c) + 1)
     else:
-        SCOPE_CHARSET.append(set)
+        SCOPE_CHARSET.append(char)
 
 
 def check_char_set(string, allowed):
-- 
2.43.0


From 5bd4d68904fdc2c021590d5c562db7d50ce772db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 10/50] fix: successful verification must return True for every
 message type

---
 src/oidcmsg/oauth2/device_authorization.py | 2 ++
 src/oidcmsg/oidc/identity_assurance.py     | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/oidcmsg/oauth2/device_authorization.py b/src/oidcmsg/oauth2/device_authorization.py
index 4cb4e4f..c8a1aad 100644
--- a/src/oidcmsg/oauth2/device_authorization.py
+++ b/src/oidcmsg/oauth2/device_authorization.py
@@ -34,3 +34,5 @@ class AccessTokenRequest(oidc.AccessTokenRequest):
             for claim in ["grant_type", "client_id"]:
                 if claim not in self:
                     raise MissingRequiredAttribute(claim)
+
+        return True
diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index cff6eb2..b222b10 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -256,6 +256,8 @@ class Evidence(Message):
             else:
                 raise ValueError("Unknown object")
 
+        return True
+
 
 def evidence_deser(val, sformat="urlencoded"):
     return deserialize_from_one_of(val, Evidence, sformat)
@@ -481,6 +483,7 @@ class VerificationElementRequest(Message):
     def verify(self, **kwargs):
         super(VerificationElementRequest, self).verify(**kwargs)
         verify_claims_request(self, VerificationElement())
+        return True
 
 
 def verification_element_request_deser(val, sformat="urlencoded"):
@@ -500,6 +503,7 @@ class VerifiedClaimsRequest(Message):
     def verify(self, **kwargs):
         super(VerifiedClaimsRequest, self).verify(**kwargs)
         verify_claims_request(self, VerifiedClaims())
+        return True
 
 
 class IDAClaimsRequest(ClaimsRequest):
@@ -511,6 +515,8 @@ class IDAClaimsRequest(ClaimsRequest):
             _vci.verify()
             self["verified_claims"] = _vci
 
+        return True
+
 
 class ClaimsConstructor:
     def __init__(self, base_class=Message):
-- 
2.43.0


From 2cd521715448a28d59f8784a1dc171861188a93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:45 +0000
Subject: [PATCH 11/50] fix: evidence verification must not recurse for ever,
 nor need the type to guess the type

---
 src/oidcmsg/oidc/identity_assurance.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index b222b10..c46c04c 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -227,6 +227,10 @@ class Evidence(Message):
     }
 
     def verify(self, **kwargs):
+        super(Evidence, self).verify(**kwargs)
+        if type(self) is not Evidence:  # a specific type, nothing more to check
+            return True
+
         _type = self.get("type")
         if _type:
             if _type == "id_document":
@@ -241,15 +245,15 @@ class Evidence(Message):
             else:
                 raise ValueError("Unknown type")
         else:  # let the guessing begin
-            if all(x in self.keys() for x in IdDocument.c_param.keys()):
+            if all(x in self.keys() for x in IdDocument().required_parameters()):
                 _doc = IdDocument(**self.to_dict())
                 _doc.verify(**kwargs)
                 self["type"] = "id_document"
-            elif all(x in self.keys() for x in UtilityBill.c_param.keys()):
+            elif all(x in self.keys() for x in UtilityBill().required_parameters()):
                 _bill = UtilityBill(**self.to_dict())
                 _bill.verify(**kwargs)
                 self["type"] = "utility_bill"
-            elif all(x in self.keys() for x in QES.c_param.keys()):
+            elif all(x in self.keys() for x in QES().required_parameters()):
                 _qes = QES(**self.to_dict())
                 _qes.verify(**kwargs)
                 self["type"] = "qes"
-- 
2.43.0


From d012ca9762af340af10088d7c5ce01fcdb84c0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:48 +0000
Subject: [PATCH 12/50] fix: time stamps that are in the ISO format can be
 serialized

---
 src/oidcmsg/oidc/identity_assurance.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index c46c04c..b350a35 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -107,7 +107,10 @@ def time_stamp_ser(val, sformat="", lev=0):
     elif isinstance(val, float):
         return to_iso8601_2004_time(int(val))
     elif isinstance(val, str):
-        return to_iso8601_2004_time(int(val))
+        try:
+            return to_iso8601_2004_time(int(val))
+        except ValueError:  # already in the ISO 8601:2004 format
+            return val
     else:
         raise ValueError("Wrong type of value")
 
@@ -132,7 +135,10 @@ def date_ser(val, sformat="", lev=0):
     elif isinstance(val, float):
         return to_iso8601_2004_date(int(val))
     elif isinstance(val, str):
-        return to_iso8601_2004_date(int(val))
+        try:
+            return to_iso8601_2004_date(int(val))
+        except ValueError:  # already in the ISO 8601:2004 format
+            return val
     else:
         raise ValueError("Wrong type of value")
 
-- 
2.43.0


From 07b516bc3ee49fe98ab176a3b57e99b731b3cef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:07 +0000
Subject: [PATCH 13/50] fix: an unsigned JWT must not pass when a signing
 algorithm is required

---
 src/oidcmsg/message.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index b9969dd..3a50353 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -20,6 +20,7 @@ from oidcmsg.exception import MissingSigningKey
 from oidcmsg.exception import NotAllowedValue
 from oidcmsg.exception import OidcMsgError
 from oidcmsg.exception import TooManyValues
+from oidcmsg.exception import WrongSigningAlgorithm
 
 logger = logging.getLogger(__name__)
 
@@ -533,7 +534,10 @@ class Message(MutableMapping):
             logger.debug("Raw JSON: %s", jso)
             logger.debug("JWS header: %s", _header)
             if _header["alg"] == "none":
-                pass
+                _alg = kwargs.get('sigalg')
+                if verify and _alg and "none" not in _alg:
+                    raise WrongSigningAlgorithm(
+                        "Expected {}, the message is not signed".format(_alg))
             elif verify:
                 if keyjar:
                     key.extend(keyjar.get_jwt_verify_keys(_jwt, **kwargs))
-- 
2.43.0


From bdbc4272e36d07735f788cf791d6ffaddf3ecefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:09 +0000
Subject: [PATCH 14/50] fix: a logout token must be signed unless unsigned
 tokens are explicitly allowed

---
 src/oidcmsg/oidc/session.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcmsg/oidc/session.py b/src/oidcmsg/oidc/session.py
index 7a9550a..a108d32 100644
--- a/src/oidcmsg/oidc/session.py
+++ b/src/oidcmsg/oidc/session.py
@@ -177,6 +177,10 @@ class BackChannelLogoutRequest(Message):
             except KeyError:
                 pass
         idt = LogoutToken().from_jwt(str(self["logout_token"]), **args)
+        if idt.jws_header['alg'] == 'none' and kwargs.get("sigalg") != "none" and not kwargs.get(
+                'allow_sign_alg_none'):
+            raise UnsupportedAlgorithm('Signing algorithm None not allowed')
+
         if not idt.verify(**kwargs):
             return False
 
-- 
2.43.0


From c27be54130db382ab3857d521dd9603e4cfd91ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:10 +0000
Subject: [PATCH 15/50] fix: item assignment must type-check language-tagged
 parameters

---
 src/oidcmsg/message.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 3a50353..d63f817 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -703,11 +703,15 @@ class Message(MutableMapping):
                 return "%s?%s" % (_l, _qp)
 
     def __setitem__(self, key, value):
-        try:
-            (vtyp, req, _, _deser, na) = self.c_param[key]
-            self._add_value(str(key), vtyp, key, value, _deser, na)
-        except KeyError:
+        _spec = self.c_param.get(key)
+        if _spec is None:  # might be a parameter with a lang tag
+            _spec = self.c_param.get(str(key).split("#")[0])
+
+        if _spec is None:
             self._dict[key] = value
+        else:
+            (vtyp, req, _, _deser, na) = _spec
+            self._add_value(str(key), vtyp, key, value, _deser, na)
 
     def __eq__(self, other):
         """
-- 
2.43.0


From dcc09955e19aed64de9effabc13c7c052545ec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:14 +0000
Subject: [PATCH 16/50] fix: an object is not a list of strings

---
 src/oidcmsg/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index d63f817..58f56e5 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -381,6 +381,8 @@ class Message(MutableMapping):
 
                 self._dict[skey] = val
             elif isinstance(val, dict):
+                if not issubclass(vtype, Message):
+                    raise DecodeError(ERRTXT % (key, "type != %s" % vtype))
                 try:
                     val = _deser(val, sformat="dict")
                 except Exception as exc:
-- 
2.43.0


From 04d4f63af883dabbe88800eee6a8f40fdcfc0749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 17/50] fix: parameters that are JSON objects must not take
 other JSON values

---
 src/oidcmsg/message.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 58f56e5..c7a6562 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -910,7 +910,10 @@ def json_serializer(obj, sformat="urlencoded", lev=0):
 
 
 def json_deserializer(txt, sformat="urlencoded"):
-    return json.loads(txt)
+    res = json.loads(txt)
+    if res is not None and not isinstance(res, dict):
+        raise ValueError("Expected a JSON object")
+    return res
 
 
 def msg_deser(val, sformat="urlencoded"):
-- 
2.43.0


From 98ee7ea909e3bfa166d8b6cd4437528069fd9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:51 +0000
Subject: [PATCH 18/50] fix: verified claims keep their type when they are read
 back

---
 src/oidcmsg/oidc/identity_assurance.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index b350a35..c00aa2b 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -167,7 +167,18 @@ class IdentityAssuranceClaims(OpenIDSchema):
     })
 
 
-OPTIONAL_IDA_CLAIMS = (IdentityAssuranceClaims, False, msg_ser, msg_deser, False)
+def ida_claims_deser(val, sformat="urlencoded"):
+    if isinstance(val, Message):
+        return val
+    elif sformat in ["dict", "json"]:
+        if not isinstance(val, str):
+            val = json.dumps(val)
+            sformat = "json"
+    return IdentityAssuranceClaims().deserialize(val, sformat)
+
+
+OPTIONAL_IDA_CLAIMS = (IdentityAssuranceClaims, False, msg_ser, ida_claims_deser, False)
+OPTIONAL_IDA_CLAIMS_REQUEST = (IdentityAssuranceClaims, False, msg_ser, msg_deser, False)
 
 
 class Verifier(Message):
@@ -507,7 +518,7 @@ OPTIONAL_VERIFICATION_ELEMENT_REQUEST = (
 class VerifiedClaimsRequest(Message):
     c_param = {
         "verification": OPTIONAL_MESSAGE,
-        "claims": OPTIONAL_IDA_CLAIMS
+        "claims": OPTIONAL_IDA_CLAIMS_REQUEST
     }
 
     def verify(self, **kwargs):
-- 
2.43.0


From 7b326eb95709675928275836dfcec57aa77af94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:53 +0000
Subject: [PATCH 19/50] fix: objects that arrived as JSON text can be
 serialized again

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index c9025ca..020d879 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -116,7 +116,7 @@ def msg_ser_json(inst, sformat="json", lev=0):
     if sformat == "dict":
         if isinstance(inst, Message):
             res = inst.serialize(sformat, lev)
-        elif isinstance(inst, dict):
+        elif isinstance(inst, (dict, str)):  # might be a JSON text
             res = inst
         else:
             raise MessageException("Wrong type: %s" % type(inst))
-- 
2.43.0


From aad7a2eaecfd58df5e12be6db774204888f55c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:50 +0000
Subject: [PATCH 20/50] fix: keep every value of a repeated list parameter in
 form encoded input

---
 src/oidcmsg/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index c7a6562..945e3cf 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -217,7 +217,9 @@ class Message(MutableMapping):
                         continue
 
             if isinstance(typ, list):
-                if _deser:
+                if _deser and typ[0] is str:
+                    self._dict[key] = [i for v in val for i in _deser(v, "urlencoded")]
+                elif _deser:
                     self._dict[key] = _deser(val[0], "urlencoded")
                 else:
                     self._dict[key] = val
-- 
2.43.0


From 0c34bbdc12d7eb4b77465ce4340b4ee131451f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:36 +0000
Subject: [PATCH 21/50] fix: an empty whitelist must not let every request
 parameter survive

---
 src/oidcmsg/oauth2/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index c60d1c2..0e5d816 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -127,10 +127,12 @@ class AuthorizationRequest(Message):
                     del self[param]
         elif treatement == "lax":
             pass
-        elif treatement == "whitelist" and whitelist:
+        elif treatement == "whitelist":
+            # without a whitelist nothing is whitelisted
+            _allowed = whitelist or []
             params = list(self.keys())
             for param in params:
-                if param not in whitelist:
+                if param not in _allowed:
                     del self[param]
 
         self.update(request_object)
-- 
2.43.0


From 0a87bdd788f42591e70e0d308d4d0356c0119781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:46 +0000
Subject: [PATCH 22/50] fix: an audience that is a string is one audience, not
 a text to search in

---
 src/oidcmsg/oidc/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 020d879..cba86c8 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -377,7 +377,10 @@ class AuthorizationResponse(oauth2.AuthorizationResponse,
         if "aud" in self:
             if "client_id" in kwargs:
                 # check that it's for me
-                if kwargs["client_id"] not in self["aud"]:
+                _aud = self["aud"]
+                if isinstance(_aud, str):  # one audience, not a list of them
+                    _aud = [_aud]
+                if kwargs["client_id"] not in _aud:
                     return False
 
         if "id_token" in self:
-- 
2.43.0


From 1354f2f1a1968af0cc1417666cb28641ea3e85ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:49 +0000
Subject: [PATCH 23/50] fix: allow_http only allows http, and only if it is
 true

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index cba86c8..0a2b8a9 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -928,7 +928,7 @@ class ProviderConfigurationResponse(ResponseMessage):
                 check_char_set(scope, SCOPE_CHARSET)
 
         parts = urlparse(self["issuer"])
-        if 'allow_http' in kwargs:
+        if parts.scheme == "http" and kwargs.get('allow_http'):
             pass
         elif parts.scheme != "https":
             raise SchemeError("Not HTTPS")
-- 
2.43.0


From 7b5e300c3789ea81b011b5e2073d84acc2d1bca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:53 +0000
Subject: [PATCH 24/50] fix: a claims specification without value constraints
 matches any value

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 0a2b8a9..ca7a48d 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -1222,7 +1222,7 @@ def claims_match(value, claimspec):
             break
 
     # No values to test against so it's just about being there or not
-    if list(claimspec.keys()) == ['essential']:
+    if 'value' not in claimspec and 'values' not in claimspec:
         return True
 
     return matched
-- 
2.43.0


From 6a3be5a659931c0a319eb9f225e000540846f58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:28 +0000
Subject: [PATCH 25/50] fix: constraints in claims requests are checked
 whatever their truth value

---
 src/oidcmsg/oidc/identity_assurance.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index c00aa2b..7e532b3 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -432,6 +432,8 @@ def _correct_value_type(val, value_type):
     else:
         if not isinstance(val, value_type):  # the simple case
             return False
+        if isinstance(val, bool) and value_type is not bool:  # bool is a subclass of int
+            return False
     return True
 
 
@@ -440,22 +442,27 @@ def _verify_claims_request_value(value, value_type=str):
         return True
     elif isinstance(value, dict):
         # know about keys: essential, value and values, purpose
-        if not value.get("essential") in (None, True, False):
+        _essential = value.get("essential")
+        if _essential is not None and not isinstance(_essential, bool):
             return False
 
         _v = value.get("value")
-        if _v:
+        if _v is not None:
             if not _correct_value_type(_v, value_type):
                 return False
 
-        _vs = value.get("values", [])
+        _vs = value.get("values")
+        if _vs is None:
+            _vs = []
+        elif not isinstance(_vs, list):
+            return False
         for _v in _vs:
             if not _correct_value_type(_v, value_type):
                 return False
 
         _p = value.get("purpose")
-        if _p:
-            if len(_p) < 3 or len(_p) > 300:
+        if _p is not None:
+            if not isinstance(_p, str) or len(_p) < 3 or len(_p) > 300:
                 return False
             if not all(x in error_chars for x in _p):
                 return False
-- 
2.43.0


From 20ef0967827db89071e45ed7cb80deeb1ca40a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:50 +0000
Subject: [PATCH 26/50] fix: one evidence object, or evidence instances, are
 evidence too

---
 src/oidcmsg/oidc/identity_assurance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 7e532b3..6c72dcb 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -281,12 +281,14 @@ class Evidence(Message):
 
 
 def evidence_deser(val, sformat="urlencoded"):
+    if isinstance(val, Message):
+        return val
     return deserialize_from_one_of(val, Evidence, sformat)
 
 
 def evidence_list_deser(val, sformat="urlencoded", lev=0):
     if isinstance(val, dict):
-        return [Message(**val)]
+        val = [val]
 
     _res = [evidence_deser(v, sformat) for v in val]
     return _res
-- 
2.43.0


From 2bfb58065313338bc7a4e400b2fdf9eac418e332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:27 +0000
Subject: [PATCH 27/50] fix: a duration with a time part but no months is
 parsed, one with unknown content is refused

The designator of the months was looked for in the whole duration, so that PT5M was refused; what was left
after the last designator was ignored.
---
 src/oidcmsg/time_util.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index 093db1c..2e6eef3 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -87,6 +87,10 @@ def parse_duration(duration):
     index += 1
 
     dic = dict([(typ, 0) for (code, typ) in D_FORMAT])
+    # The designators of the date part must be looked for before the "T"
+    end = duration.find("T")
+    if end < 0:
+        end = len(duration)
 
     for code, typ in D_FORMAT:
         # print duration[index:], code
@@ -95,13 +99,14 @@ def parse_duration(duration):
         if code == "T":
             if duration[index] == "T":
                 index += 1
+                end = len(duration)
                 if index == len(duration):
                     raise TimeUtilError("Not allowed to end with 'T'")
             else:
                 raise TimeUtilError("Missing T")
         else:
             try:
-                mod = duration[index:].index(code)
+                mod = duration[index:end].index(code)
                 try:
                     dic[typ] = int(duration[index:index + mod])
                 except ValueError:
@@ -119,6 +124,8 @@ def parse_duration(duration):
 
         if index == len(duration):
             break
+    else:
+        raise TimeUtilError("Unexpected content: '{}'".format(duration[index:]))
 
     return sign, dic
 
-- 
2.43.0


From b2f51cbc02cf067baf58355619a41240bab55cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:35 +0000
Subject: [PATCH 28/50] fix: a birthdate must be written YYYY-MM-DD, YYYY or
 0000-MM-DD

strptime also reads numbers with one digit, blanks and digits of other scripts.
---
 src/oidcmsg/oidc/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index ca7a48d..8d460e8 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -2,6 +2,7 @@
 import inspect
 import json
 import logging
+import re
 import sys
 import time
 from urllib.parse import urlencode
@@ -47,6 +48,8 @@ logger = logging.getLogger(__name__)
 
 NONCE_STORAGE_TIME = 4 * 3600
 
+BIRTHDATE_FORMAT = re.compile("[0-9]{4}(-[0-9]{2}-[0-9]{2})?")
+
 
 class AtHashError(VerificationError):
     pass
@@ -578,6 +581,8 @@ class OpenIDSchema(ResponseMessage):
 
         if "birthdate" in self:
             # Either YYYY-MM-DD or just YYYY or 0000-MM-DD
+            if not BIRTHDATE_FORMAT.fullmatch(self["birthdate"]):
+                raise VerificationError("Birthdate format error", self)
             try:
                 time.strptime(self["birthdate"], "%Y-%m-%d")
             except ValueError:
-- 
2.43.0


From df0d511caf80b50137d67a5f5ad3e7e0745021c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:38 +0000
Subject: [PATCH 29/50] fix: an ID Token with a null claim does not verify

OpenIDSchema.verify() returns False for it, which IdToken.verify() ignored.
---
 src/oidcmsg/oidc/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 8d460e8..280a001 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -777,7 +777,8 @@ class IdToken(OpenIDSchema):
         return Message.to_jwt(self, key=key, algorithm=algorithm, lev=lev)
 
     def verify(self, **kwargs):
-        super(IdToken, self).verify(**kwargs)
+        if not super(IdToken, self).verify(**kwargs):
+            return False
 
         try:
             if kwargs['iss'] != self['iss']:
-- 
2.43.0


From 586b8837277f6bb4fa3e6ebd3352a13238d30444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:19 +0000
Subject: [PATCH 30/50] fix: a path that starts with dots only is normalised to
 a path that starts with ./

The path . became /, the root of the file system, and .foo became foo/.
---
 src/oidcmsg/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/__init__.py b/src/oidcmsg/__init__.py
index 6c54ecc..8cd8ae2 100755
--- a/src/oidcmsg/__init__.py
+++ b/src/oidcmsg/__init__.py
@@ -22,6 +22,8 @@ def proper_path(path):
             path = path[1:]
         if path.startswith("/"):
             path = ".%s" % path
+        else:
+            path = "./%s" % path
     else:
         path = "./%s" % path
 
-- 
2.43.0


From b3d7f080e0b719ef2029ab369b9340c6f019baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:23 +0000
Subject: [PATCH 31/50] fix: add_base_path uses os.path without importing os

---
 src/oidcmsg/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/__init__.py b/src/oidcmsg/__init__.py
index 8cd8ae2..87ed2c5 100755
--- a/src/oidcmsg/__init__.py
+++ b/src/oidcmsg/__init__.py
@@ -1,3 +1,5 @@
+import os
+
 __author__ = 'Roland Hedberg'
 __version__ = '1.1.3'
 
-- 
2.43.0


From bc87c7411a2a096f21beb332a7aded305f3fa6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:12 +0000
Subject: [PATCH 32/50] fix: keys that are names of directories or lock files
 get a file name of their own

---
 src/oidcmsg/storage/converter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/converter.py b/src/oidcmsg/storage/converter.py
index 018d03d..4714815 100644
--- a/src/oidcmsg/storage/converter.py
+++ b/src/oidcmsg/storage/converter.py
@@ -5,7 +5,11 @@ from urllib.parse import unquote_plus
 
 class QPKey:
     def serialize(self, str):
-        return quote_plus(str)
+        name = quote_plus(str)
+        if name in ('.', '..') or name.endswith('.lock'):
+            # would be a directory respectively the lock of another file
+            name = name.replace('.', '%2E')
+        return name
 
     def deserialize(self, str):
         return unquote_plus(str)
-- 
2.43.0


From 75bb7be95f1a88f68d0c2ecf6ac9d8f01574c44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:07 +0000
Subject: [PATCH 33/50] fix: an entry of a file store whose key is not its file
 name could not be deleted

---
 src/oidcmsg/storage/abfile.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 248b99b..1295632 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -126,16 +126,16 @@ class AbstractFileSystem(Storage):
         self.fmtime[_key] = self.get_mtime(fname)
 
     def __delitem__(self, key):
-        fname = os.path.join(self.fdir, key)
+        self._remove(self.key_conv.serialize(key))
+
+    def _remove(self, item):
+        fname = os.path.join(self.fdir, item)
         if os.path.isfile(fname):
             lock = FileLock('{}.lock'.format(fname))
             with lock:
                 os.unlink(fname)
 
-        try:
-            del self.storage[key]
-        except KeyError:
-            pass
+        self._forget(item)
 
     def keys(self):
         """
@@ -189,6 +189,10 @@ class AbstractFileSystem(Storage):
             logger.error('Could not access {}'.format(fname))
             raise KeyError(item)
 
+    def _forget(self, item):
+        self.storage.pop(item, None)
+        self.fmtime.pop(item, None)
+
     def _read_info(self, fname):
         if os.path.isfile(fname):
             try:
@@ -249,7 +253,8 @@ class AbstractFileSystem(Storage):
             return
 
         for f in os.listdir(self.fdir):
-            del self[f]
+            if not f.endswith('.lock'):
+                self._remove(f)
 
     def update(self, ava):
         """
-- 
2.43.0


From 3ab61e8ec8a1397332f73450322abe9843c3141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:07 +0000
Subject: [PATCH 34/50] fix: text read back from a file store lost outer white
 space and its line ends were changed

---
 src/oidcmsg/storage/abfile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 1295632..0163573 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -118,7 +118,7 @@ class AbstractFileSystem(Storage):
         fname = os.path.join(self.fdir, _key)
         lock = FileLock('{}.lock'.format(fname))
         with lock:
-            with open(fname, 'w') as fp:
+            with open(fname, 'w', newline='') as fp:
                 fp.write(self.value_conv.serialize(value))
 
         self.storage[_key] = value
@@ -198,7 +198,8 @@ class AbstractFileSystem(Storage):
             try:
                 lock = FileLock('{}.lock'.format(fname))
                 with lock:
-                    info = open(fname, 'r').read().strip()
+                    with open(fname, 'r', newline='') as fp:
+                        info = fp.read()
                 return self.value_conv.deserialize(info)
             except Exception as err:
                 logger.error(err)
-- 
2.43.0


From a9d32da6d87fcd900fbfdbac2e34cbb5a867f9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:07 +0000
Subject: [PATCH 35/50] fix: updates, defaults by name, iteration and length of
 labelled stores ignored or mishandled the label

---
 src/oidcmsg/storage/abfile.py    | 20 +++-----------------
 src/oidcmsg/storage/extension.py | 10 +++++-----
 2 files changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 0163573..7f94770 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -312,9 +312,9 @@ class LabeledAbstractFileSystem(Storage):
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for k, v in ava.items():
+            self[k] = v
 
     @key_label
     def __getitem__(self, k):
@@ -346,18 +346,4 @@ class LabeledAbstractFileSystem(Storage):
                 yield key[len(self.label):], val
 
     def __len__(self):
-        if not os.path.isdir(self.storage.fdir):
-            return 0
-
-        n = 0
-        for f in os.listdir(self.storage.fdir):
-            if f.startswith(self.label):
-                fname = os.path.join(self.storage.fdir, f)
-
-                if not os.path.isfile(fname):
-                    continue
-                if fname.endswith('.lock'):
-                    continue
-
-                n += 1
-        return n
+        return len(self.keys())
diff --git a/src/oidcmsg/storage/extension.py b/src/oidcmsg/storage/extension.py
index 5554688..f1ac311 100644
--- a/src/oidcmsg/storage/extension.py
+++ b/src/oidcmsg/storage/extension.py
@@ -1,7 +1,7 @@
 def key_label(func):
-    def add_label(self, k, *args):
+    def add_label(self, k, *args, **kwargs):
         _k = "{}{}".format(self.label, k)
-        return func(self, _k, *args)
+        return func(self, _k, *args, **kwargs)
 
     return add_label
 
@@ -35,9 +35,9 @@ class LabeledDict():
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for k, v in ava.items():
+            self[k] = v
 
     @key_label
     def __getitem__(self, k):
@@ -60,7 +60,7 @@ class LabeledDict():
         return self.storage.__contains__(k)
 
     def __iter__(self):
-        for key, val in self.storage.__iter__():
+        for key, val in self.storage.items():
             if key.startswith(self.label):
                 yield key[self.label_len:], val
 
-- 
2.43.0


From 83efda56a8a4d57066c19d46018ce2432b00460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:07 +0000
Subject: [PATCH 36/50] fix: a write by another process right after the own one
 went unnoticed

---
 src/oidcmsg/storage/abfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 7f94770..d7c6781 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -120,10 +120,11 @@ class AbstractFileSystem(Storage):
         with lock:
             with open(fname, 'w', newline='') as fp:
                 fp.write(self.value_conv.serialize(value))
+            # before anyone else can write to the file
+            self.fmtime[_key] = self.get_mtime(fname)
 
         self.storage[_key] = value
         logger.debug('Wrote to "%s"', key)
-        self.fmtime[_key] = self.get_mtime(fname)
 
     def __delitem__(self, key):
         self._remove(self.key_conv.serialize(key))
-- 
2.43.0


From 1023d873caaad2b43d7b698decb40d620a1bbb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:07 +0000
Subject: [PATCH 37/50] fix: entries changed to unreadable content or removed
 by another process were still returned or broke other operations

---
 src/oidcmsg/storage/abfile.py | 86 +++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index d7c6781..b52bf25 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -88,10 +88,13 @@ class AbstractFileSystem(Storage):
         """
         item = self.key_conv.serialize(item)
 
-        if self.is_changed(item):
-            logger.info("File content change in {}".format(item))
-            fname = os.path.join(self.fdir, item)
-            self.storage[item] = self._read_info(fname)
+        try:
+            if self.is_changed(item):
+                logger.info("File content change in {}".format(item))
+                self._load(item)
+        except FileNotFoundError:
+            # removed by someone else in the meantime
+            raise KeyError(item)
 
         logger.debug('Read from "%s"', item)
         return self.storage[item]
@@ -134,7 +137,10 @@ class AbstractFileSystem(Storage):
         if os.path.isfile(fname):
             lock = FileLock('{}.lock'.format(fname))
             with lock:
-                os.unlink(fname)
+                try:
+                    os.unlink(fname)
+                except FileNotFoundError:
+                    pass
 
         self._forget(item)
 
@@ -178,36 +184,37 @@ class AbstractFileSystem(Storage):
             try:
                 _ftime = self.fmtime[item]
             except KeyError:  # Never been seen before
-                self.fmtime[item] = mtime
                 return True
 
-            if mtime > _ftime:  # has changed
-                self.fmtime[item] = mtime
-                return True
-            else:
-                return False
+            return mtime > _ftime  # has changed
         else:
             logger.error('Could not access {}'.format(fname))
             raise KeyError(item)
 
+    def _load(self, item):
+        """
+        Read the content of a file into the local cache. The time of the file is
+        only remembered if it could be read.
+        """
+        fname = os.path.join(self.fdir, item)
+        mtime = self.get_mtime(fname)
+        self.storage[item] = self._read_info(fname)
+        self.fmtime[item] = mtime
+
     def _forget(self, item):
         self.storage.pop(item, None)
         self.fmtime.pop(item, None)
 
     def _read_info(self, fname):
-        if os.path.isfile(fname):
-            try:
-                lock = FileLock('{}.lock'.format(fname))
-                with lock:
-                    with open(fname, 'r', newline='') as fp:
-                        info = fp.read()
-                return self.value_conv.deserialize(info)
-            except Exception as err:
-                logger.error(err)
-                raise
-        else:
-            logger.error('No such file: {}'.format(fname))
-        return None
+        try:
+            lock = FileLock('{}.lock'.format(fname))
+            with lock:
+                with open(fname, 'r', newline='') as fp:
+                    info = fp.read()
+            return self.value_conv.deserialize(info)
+        except Exception as err:
+            logger.error(err)
+            raise
 
     def synch(self):
         """
@@ -217,25 +224,34 @@ class AbstractFileSystem(Storage):
         if not os.path.isdir(self.fdir):
             os.makedirs(self.fdir)
             # raise ValueError('No such directory: {}'.format(self.fdir))
-        for f in os.listdir(self.fdir):
+        files = os.listdir(self.fdir)
+        for f in list(self.storage.keys()):
+            if f not in files:  # removed by someone else
+                self._forget(f)
+
+        for f in files:
             fname = os.path.join(self.fdir, f)
 
             if not os.path.isfile(fname):
+                self._forget(f)
                 continue
             if fname.endswith('.lock'):
                 continue
 
-            if f in self.fmtime:
-                if self.is_changed(f):
-                    self.storage[f] = self._read_info(fname)
-            else:
-                mtime = self.get_mtime(fname)
-                try:
-                    self.storage[f] = self._read_info(fname)
-                except Exception as err:
-                    logger.warning('Bad content in {} ({})'.format(fname, err))
+            try:
+                if f in self.fmtime:
+                    if self.is_changed(f):
+                        self._load(f)
                 else:
-                    self.fmtime[f] = mtime
+                    try:
+                        self._load(f)
+                    except FileNotFoundError:
+                        raise
+                    except Exception as err:
+                        logger.warning('Bad content in {} ({})'.format(fname, err))
+            except (FileNotFoundError, KeyError):
+                # removed by someone else in the meantime
+                self._forget(f)
 
     def items(self):
         """
-- 
2.43.0


From 650d85b3db919e9106b70b2475ad7ca4fdf34a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:22 +0000
Subject: [PATCH 38/50] fix: membership in a file store follows what other
 processes do

---
 src/oidcmsg/storage/abfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index b52bf25..0c1a0ee 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -285,7 +285,8 @@ class AbstractFileSystem(Storage):
             self[key] = val
 
     def __contains__(self, item):
-        return self.key_conv.serialize(item) in self.storage
+        # it may have been added or removed by someone else
+        return os.path.isfile(os.path.join(self.fdir, self.key_conv.serialize(item)))
 
     def __iter__(self):
         return self.items()
-- 
2.43.0


From 033e071de7a050c737e7f6d94519c6187ba2781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:05 +0000
Subject: [PATCH 39/50] fix: an ID token signed with no algorithm gets no null
 at_hash or c_hash

---
 src/oidcmsg/oidc/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 280a001..672edc3 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -745,10 +745,12 @@ class IdToken(OpenIDSchema):
 
         for attr, hash_attr in self.hashable.items():
             try:
-                self[hash_attr] = left_hash(as_unicode(self[attr]), halg)
+                _hash = left_hash(as_unicode(self[attr]), halg)
             except KeyError:
                 pass
             else:
+                if _hash is not None:  # no hash goes with an unsigned token
+                    self[hash_attr] = _hash
                 del self[attr]
 
     def pack_init(self, lifetime=0):
-- 
2.43.0


From 5b7f87e5769b75907cbf30a12181d8a22f00f3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:05 +0000
Subject: [PATCH 40/50] fix: membership in the SQL store is about keys, not
 about stored data

---
 src/oidcmsg/storage/absqlalchemy.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 9314ab8..656d868 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -53,9 +53,7 @@ class AbstractStorageSQLAlchemy:
         return n_entries
 
     def __contains__(self, k):
-        for entry in self():
-            if k in entry:
-                return 1
+        return self.session.query(self.table).filter_by(owner=k).first() is not None
 
     def __call__(self):
         return self.session.query(self.table).all()
-- 
2.43.0


From eadf0a4e6f912c6aa38479274aac58a10ccdbe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:05 +0000
Subject: [PATCH 41/50] fix: commit a deletion in the SQL store

---
 src/oidcmsg/storage/absqlalchemy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 656d868..d82ab8b 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -24,7 +24,7 @@ class AbstractStorageSQLAlchemy:
         return entry.data
 
     def set(self, k, v):
-        self.delete(k)
+        self.session.execute(self.table.delete().where(self.table.c.owner == k))
         ins = self.table.insert().values(owner=k,
                                          data=v)
         self.session.execute(ins)
@@ -50,6 +50,7 @@ class AbstractStorageSQLAlchemy:
         delquery = self.table.delete().where(self.table.c.owner == v)
         n_entries = self.session.query(self.table).filter(self.table.c.owner == v).count()
         self.session.execute(delquery)
+        self.session.commit()
         return n_entries
 
     def __contains__(self, k):
-- 
2.43.0


From f364b50dc3f849ba145442e8ef410025f3c71cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:05 +0000
Subject: [PATCH 42/50] fix: let the SQL store be iterated over

---
 src/oidcmsg/storage/absqlalchemy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index d82ab8b..f1a332b 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -60,7 +60,7 @@ class AbstractStorageSQLAlchemy:
         return self.session.query(self.table).all()
 
     def __iter__(self):
-        return self.session.query(self.table)
+        return iter(self.session.query(self.table))
 
     def __str__(self):
         entries = []
-- 
2.43.0


From be5f1d34ce5964a8e916c2cea8191f23cd9bb65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:05 +0000
Subject: [PATCH 43/50] fix: write identity assurance times with the offset
 that applies at that time

---
 src/oidcmsg/oidc/identity_assurance.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 6c72dcb..739999e 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -51,16 +51,13 @@ TIME_FORMAT = "%Y-%m-%dT%H:%M:%S%z"
 DATE_FORMAT = "%Y-%m-%d"
 
 
-def to_iso8601_2004(val=0, format=TIME_FORMAT):
+def to_iso8601_2004(val=None, format=TIME_FORMAT):
     """
-    :param val: integer/float/datetime.datetime
+    :param val: integer/float/datetime.datetime, or None for the current time
     :return: A string following the DATE_FORMAT format
     """
 
-    # Finds the local time zone
-    ltz = datetime.datetime.utcnow().astimezone().tzinfo
-
-    if val:
+    if val is not None:
         if isinstance(val, datetime.datetime):
             d = val
         elif isinstance(val, (int, float)):
@@ -70,7 +67,8 @@ def to_iso8601_2004(val=0, format=TIME_FORMAT):
     else:
         d = datetime.datetime.now()
 
-    return d.replace(tzinfo=ltz).strftime(format)
+    # In the local time zone, with the offset that applies at that time
+    return d.astimezone().strftime(format)
 
 
 def from_iso8601_2004(isotime, format=TIME_FORMAT):
@@ -82,11 +80,11 @@ def from_iso8601_2004(isotime, format=TIME_FORMAT):
     return d.timestamp()
 
 
-def to_iso8601_2004_time(val=0):
+def to_iso8601_2004_time(val=None):
     return to_iso8601_2004(val, format=TIME_FORMAT)
 
 
-def to_iso8601_2004_date(val=0):
+def to_iso8601_2004_date(val=None):
     return to_iso8601_2004(val, format=DATE_FORMAT)
 
 
-- 
2.43.0


From 6d53abbcfbb5ed90674eccb3c0cfae164d462e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:05 +0000
Subject: [PATCH 44/50] fix: read identity assurance times with an offset of
 whole hours

---
 src/oidcmsg/oidc/identity_assurance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 739999e..635f26c 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -1,6 +1,7 @@
 import abc
 import datetime
 import json
+import re
 
 from oidcmsg.message import OPTIONAL_MESSAGE
 from oidcmsg.message import SINGLE_OPTIONAL_JSON
@@ -76,6 +77,8 @@ def from_iso8601_2004(isotime, format=TIME_FORMAT):
     :param isotime: A string following the DATE_FORMAT format
     :return: A time stamp (int)
     """
+    if format.endswith("%z") and re.search(r"T\d\d:\d\d:\d\d[+-]\d\d$", isotime):
+        isotime += "00"  # strptime demands minutes in the offset
     d = datetime.datetime.strptime(isotime, format)
     return d.timestamp()
 
-- 
2.43.0


From 0d33027169c59e81fa1e0d7416397265c81a8aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:05 +0000
Subject: [PATCH 45/50] fix: the dates of documents and bills are dates, not
 time stamps

---
 src/oidcmsg/oidc/identity_assurance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 635f26c..e95a2af 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -227,8 +227,8 @@ class Document(Message):
         "type": SINGLE_REQUIRED_STRING,
         "number": SINGLE_REQUIRED_STRING,
         "issuer": REQUIRED_ISSUER,
-        "date_of_issuance": REQURIED_TIME_STAMP,
-        "date_of_expiry": REQURIED_TIME_STAMP
+        "date_of_issuance": REQURIED_DATE,
+        "date_of_expiry": REQURIED_DATE
     }
 
 
@@ -346,7 +346,7 @@ class UtilityBill(Evidence):
     c_param = Evidence.c_param.copy()
     c_param.update({
         "provider": REQUIRED_PROVIDER,
-        "date": OPTIONAL_TIME_STAMP
+        "date": OPTIONAL_DATE
     })
 
 
-- 
2.43.0


From f4a5fe26509f44b9a47af6e2fa7c7d48af1f8a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:32 +0000
Subject: [PATCH 46/50] fix: write JSON object members as objects, not as text,
 in dictionaries, JSON and JWTs

---
 src/oidcmsg/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 945e3cf..f0bfef4 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -908,6 +908,8 @@ def sp_sep_list_deserializer(val, sformat="urlencoded"):
 
 
 def json_serializer(obj, sformat="urlencoded", lev=0):
+    if sformat in ("dict", "json"):
+        return obj
     return json.dumps(obj)
 
 
-- 
2.43.0


From 905e60548bcde19c489794a7460b8fb6b1d223f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:35 +0000
Subject: [PATCH 47/50] fix: read object members given as JSON text as objects
 and refuse other text

---
 src/oidcmsg/oidc/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 672edc3..d9d9c4d 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -38,6 +38,7 @@ from oidcmsg.message import SINGLE_OPTIONAL_JSON
 from oidcmsg.message import SINGLE_OPTIONAL_STRING
 from oidcmsg.message import SINGLE_REQUIRED_STRING
 from oidcmsg.message import Message
+from oidcmsg.message import json_deserializer
 from oidcmsg.message import msg_ser
 from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.time_util import utc_time_sans_frac
@@ -217,7 +218,7 @@ SINGLE_OPTIONAL_REGISTRATION_REQUEST = (Message, False, msg_ser,
 SINGLE_OPTIONAL_CLAIMSREQ = (Message, False, msg_ser_json, claims_request_deser,
                              False)
 
-SINGLE_OPTIONAL_DICT = (dict, False, msg_ser_json, dict_deser, False)
+SINGLE_OPTIONAL_DICT = (dict, False, msg_ser_json, json_deserializer, False)
 
 # ----------------------------------------------------------------------------
 
-- 
2.43.0


From 68bf3fe2fc819042c0d546c9f9273b2c3e4cf4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:38 +0000
Subject: [PATCH 48/50] fix: read JSON text with an equals sign in it as JSON

---
 src/oidcmsg/oidc/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index d9d9c4d..49b465e 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -73,6 +73,8 @@ def deserialize_from_one_of(val, msgtype, sformat):
         flist = ['json', 'urlencoded']
         if not isinstance(val, str):
             val = json.dumps(val)
+    elif val.lstrip().startswith('{'):  # JSON, even if there are '=' and '&' in it
+        flist = ['json']
     else:
         flist = ['urlencoded', 'json']
 
-- 
2.43.0


From f346a7637cd3f403521073c20f522678369e6083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 49/50] fix: calling a file store lists the keys that are there
 now

---
 src/oidcmsg/storage/abfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 0c1a0ee..b3e859d 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -292,7 +292,7 @@ class AbstractFileSystem(Storage):
         return self.items()
 
     def __call__(self, *args, **kwargs):
-        return [self.key_conv.deserialize(k) for k in self.storage.keys()]
+        return list(self.keys())
 
     def __len__(self):
         if not os.path.isdir(self.fdir):
-- 
2.43.0


From 10d85687e00c6e785c71f12d3c8973676fcb112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:51 +0000
Subject: [PATCH 50/50] fix: add the keys of a context only once and leave the
 configured key set as it is

---
 src/oidcmsg/context.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/context.py b/src/oidcmsg/context.py
index 30a38e1..c06c2a1 100644
--- a/src/oidcmsg/context.py
+++ b/src/oidcmsg/context.py
@@ -22,6 +22,18 @@ def add_issuer(conf, issuer):
     return res
 
 
+def add_keys(keyjar, jwks, issuer_id):
+    """
+    Add keys to the ones an issuer has in a key jar. Keys that are already there are left as
+    they are. The JWKS is not changed.
+    """
+    _jar = KeyJar()
+    _jar.import_jwks(copy.deepcopy(jwks), '')
+    _have = keyjar.export_jwks(True, issuer_id)['keys']
+    _new = [key for key in _jar.export_jwks(True, '')['keys'] if key not in _have]
+    keyjar.import_jwks({'keys': _new}, issuer_id)
+
+
 class OidcContext:
     def __init__(self, config=None, keyjar=None, entity_id=''):
         if config is None:
@@ -61,11 +73,11 @@ class OidcContext:
             else:
                 _keyjar = KeyJar(storage=_storage)
                 if 'jwks' in conf:
-                    _keyjar.import_jwks(conf['jwks'], '')
+                    add_keys(_keyjar, conf['jwks'], '')
 
             if '' in _keyjar and entity_id:
                 # make sure I have the keys under my own name too (if I know it)
-                _keyjar.import_jwks_as_json(_keyjar.export_jwks_as_json(True, ''), entity_id)
+                add_keys(_keyjar, _keyjar.export_jwks(True, ''), entity_id)
 
             _httpc_params = conf.get('httpc_params')
             if _httpc_params:
-- 
2.43.0

