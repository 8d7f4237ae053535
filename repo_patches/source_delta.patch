From 4849a958c150dd5b714da239807d794729df41af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:48 +0000
Subject: [PATCH 01/68] fix: make AMP routes work with the bytes boxes of a
 real AMP connection

---
 epsilon/amprouter.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index dbb9f18..4951de7 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -9,12 +9,12 @@ multiple L{IBoxReceiver}/I{IBoxSender} pairs over a single L{AMP} connection.
 from itertools import count
 
 import six
-from twisted.protocols.amp import IBoxReceiver, IBoxSender
+from twisted.protocols.amp import AmpBox, IBoxReceiver, IBoxSender
 from zope.interface import implementer
 
 from epsilon.structlike import record
 
-_ROUTE = '_route'
+_ROUTE = b'_route'
 _unspecified = object()
 
 
@@ -89,7 +89,11 @@ class Route(record('router receiver localRouteName remoteRouteName',
         if self.remoteRouteName is _unspecified:
             raise RouteNotConnected()
         if self.remoteRouteName is not None:
-            box[_ROUTE] = self.remoteRouteName
+            routeName = self.remoteRouteName
+            if isinstance(box, AmpBox) and isinstance(routeName, six.text_type):
+                # Only bytes can be put on the wire.
+                routeName = routeName.encode('utf-8')
+            box[_ROUTE] = routeName
         self.router._sender.sendBox(box)
 
 
@@ -186,6 +190,8 @@ class Router:
         indicated by the box, or handle it directly if there is no route.
         """
         route = box.pop(_ROUTE, None)
+        if isinstance(route, six.binary_type):
+            route = route.decode('utf-8')
         self._routes[route].receiver.ampBoxReceived(box)
 
 
-- 
2.43.0


From a2f51de68b308ffb111232a1a79a09112e0f96a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:49 +0000
Subject: [PATCH 02/68] fix: let receivers bind, connect and unbind routes
 while their router starts or stops

---
 epsilon/amprouter.py | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 4951de7..c531870 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -49,29 +49,34 @@ class Route(record('router receiver localRouteName remoteRouteName',
         boxes sent to this sender.  If C{None}, no route will be added.
     """
 
+    _started = False
+
     def connectTo(self, remoteRouteName):
         """
         Set the name of the route which will be added to outgoing boxes.
         """
         self.remoteRouteName = remoteRouteName
-        # This route must not be started before its router is started.  If
-        # sender is None, then the router is not started.  When the router is
-        # started, it will start this route.
-        if self.router._sender is not None:
-            self.start()
+        # This route must not be started before its router is started.  When
+        # the router is started, it will start this route.
+        self.router._startRoute(self)
 
 
     def unbind(self):
         """
         Remove the association between this route and its router.
         """
-        del self.router._routes[self.localRouteName]
+        routes = self.router._routes
+        if routes is None:
+            routes = self.router._unstarted
+        if routes is not None and routes.get(self.localRouteName) is self:
+            del routes[self.localRouteName]
 
 
     def start(self):
         """
         Associate this object with a receiver as its L{IBoxSender}.
         """
+        self._started = True
         self.receiver.startReceivingBoxes(self)
 
 
@@ -174,14 +179,26 @@ class Router:
         Initialize route tracking objects.
         """
         self._sender = sender
-        for routeName, route in six.viewitems(self._unstarted):
+        self._routes = self._unstarted
+        self._unstarted = None
+        # Receivers may bind, connect and unbind routes when they are started.
+        for route in list(six.viewvalues(self._routes)):
             # Any route which has been bound but which does not yet have a
             # remote route name should not yet be started.  These will be
             # started in Route.connectTo.
             if route.remoteRouteName is not _unspecified:
-                route.start()
-        self._routes = self._unstarted
-        self._unstarted = None
+                self._startRoute(route)
+
+
+    def _startRoute(self, route):
+        """
+        Start the given connected route if this router is running, the route is
+        still bound to it and the route has not been started before.
+        """
+        if (self._routes is not None
+            and self._routes.get(route.localRouteName) is route
+            and not route._started):
+            route.start()
 
 
     def ampBoxReceived(self, box):
@@ -199,8 +216,10 @@ class Router:
         """
         Stop all the L{IBoxReceiver}s which have been added to this router.
         """
-        for routeName, route in six.viewitems(self._routes):
-            route.stop(reason)
+        # Receivers may bind and unbind routes when they are stopped.
+        for route in list(six.viewvalues(self._routes)):
+            if self._routes.get(route.localRouteName) is route:
+                route.stop(reason)
         self._routes = None
 
 
-- 
2.43.0


From 7edc77a0a2e841c3f5837c539ef1969438e1fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:50 +0000
Subject: [PATCH 03/68] fix: never generate a route identifier which is already
 bound

---
 epsilon/amprouter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index c531870..d37815a 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -147,7 +147,11 @@ class Router:
 
         @rtype: C{unicode}
         """
-        return six.text_type(next(self._routeCounter))
+        routes = self._unstarted if self._routes is None else self._routes
+        routeName = six.text_type(next(self._routeCounter))
+        while routes and routeName in routes:
+            routeName = six.text_type(next(self._routeCounter))
+        return routeName
 
 
     def bindRoute(self, receiver, routeName=_unspecified):
-- 
2.43.0


From 6d7929ba695cea63c07e931e1c0b501eb3c0dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:16 +0000
Subject: [PATCH 04/68] fix: do not start the receiver of a route connected
 while its router is stopping

---
 epsilon/amprouter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index d37815a..c829dc9 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -134,6 +134,7 @@ class Router:
 
     _routes = None
     _sender = None
+    _stopping = False
 
     def __init__(self):
         self._routeCounter = count()
@@ -200,6 +201,7 @@ class Router:
         still bound to it and the route has not been started before.
         """
         if (self._routes is not None
+            and not self._stopping
             and self._routes.get(route.localRouteName) is route
             and not route._started):
             route.start()
@@ -220,6 +222,7 @@ class Router:
         """
         Stop all the L{IBoxReceiver}s which have been added to this router.
         """
+        self._stopping = True
         # Receivers may bind and unbind routes when they are stopped.
         for route in list(six.viewvalues(self._routes)):
             if self._routes.get(route.localRouteName) is route:
-- 
2.43.0


From 0ad4b62dd32690cdaa7c3145b41be5d1d62dc9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 05/68] fix: log out AMP avatars whose login completes too late
 to be used

---
 epsilon/ampauth.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/epsilon/ampauth.py b/epsilon/ampauth.py
index ad0a3bb..cab3b6e 100644
--- a/epsilon/ampauth.py
+++ b/epsilon/ampauth.py
@@ -175,6 +175,7 @@ class CredReceiver(AMP):
     """
     portal = None
     logout = None
+    _disconnected = False
 
     @PasswordLogin.responder
     def passwordLogin(self, username):
@@ -193,6 +194,11 @@ class CredReceiver(AMP):
         d = self.portal.login(credentials, None, IBoxReceiver)
         def cbLoggedIn(result):
             interface, avatar, logout = result
+            if self._disconnected or self.logout is not None:
+                # There is nothing left to use this avatar: the connection was
+                # lost or another login attempt completed in the meantime.
+                logout()
+                raise UnauthorizedLogin()
             self.logout = logout
             self.boxReceiver = avatar
             self.boxReceiver.startReceivingBoxes(self.boxSender)
@@ -222,6 +228,7 @@ class CredReceiver(AMP):
         """
         If a login has happened, perform a logout.
         """
+        self._disconnected = True
         AMP.connectionLost(self, reason)
         if self.logout is not None:
             self.logout()
-- 
2.43.0


From e98ba49a8352beaf204bd77f5592cf92449c3c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:57 +0000
Subject: [PATCH 06/68] fix: receive lines without recursion and drop
 everything once disconnecting

---
 epsilon/liner.py | 54 +++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/epsilon/liner.py b/epsilon/liner.py
index a28352a..4b7bb4e 100644
--- a/epsilon/liner.py
+++ b/epsilon/liner.py
@@ -33,33 +33,45 @@ class LineReceiver(Protocol):
     def setRawMode(self):
         self.lineMode = False
 
+    _delivering = False
+
     def dataReceived(self, data):
-        buffer = self.buffer
-        buffer += data
+        self.buffer += data
+        if self._delivering:
+            # This is a callback handing back data it did not want; the loop
+            # below will get to it, without recursion.
+            return
+        self._delivering = True
+        try:
+            while self._deliver():
+                pass
+        finally:
+            self._delivering = False
+
+    def _deliver(self):
+        """
+        Deliver what has been buffered.  Return C{True} if more data was put
+        into the buffer meanwhile, C{False} if there is nothing left to do.
+        """
+        buffer, self.buffer = self.buffer, b''
         delimiter = self.delimiter
         begin = 0
-        raw = False
         while self.lineMode:
+            if self.isDisconnecting():
+                self.buffer = b''
+                return False
             end = buffer.find(delimiter, begin)
             if end == -1:
-                break
+                extra = self.buffer
+                self.buffer = buffer[begin:] + extra
+                return bool(extra)
             line = buffer[begin:end]
-            self.lineReceived(line)
-            if self.isDisconnecting():
-                self.buffer = b''
-                return
             begin = end + len(delimiter)
-        else:
-            raw = True
-        if begin:
-            buffer = buffer[begin:]
-        if raw:
+            self.lineReceived(line)
+        buffer = buffer[begin:]
+        if self.isDisconnecting():
             self.buffer = b''
-            if self.isDisconnecting():
-                return
-            if buffer:
-                self.rawDataReceived(buffer)
-        else:
-            self.buffer = buffer
-
-
+            return False
+        if buffer:
+            self.rawDataReceived(buffer)
+        return bool(self.buffer)
-- 
2.43.0


From c0511808d1eb414ac161470f5430a83669f76eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:58 +0000
Subject: [PATCH 07/68] fix: announce the length of a juice body in bytes, not
 characters

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 6a58863..e1de96f 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -65,7 +65,7 @@ class JuiceBox(dict):
         for (k, v) in six.viewitems(self):
             if k == BODY:
                 k = LENGTH
-                v = str(len(self[BODY]))
+                v = str(len(six.ensure_binary(self[BODY])))
             L.append(six.ensure_binary(k).replace(b'_', b'-').title())
             L.append(b': ')
             L.append(six.ensure_binary(v).replace(delimiter, escaped))
-- 
2.43.0


From 4ee67d7393aed959fb39ff95f24c48ca697aeee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:59 +0000
Subject: [PATCH 08/68] fix: deliver an empty juice body as an empty body

---
 epsilon/juice.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index e1de96f..e1c0862 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -297,7 +297,13 @@ def parseJuiceHeaders(lines):
         key, value = parts
         key = normalizeKey(key)
         b[key] = six.ensure_str(value)
-    return int(b.pop(LENGTH, 0)), b
+    length = b.pop(LENGTH, None)
+    if length is None:
+        return 0, b
+    length = int(length)
+    if not length:
+        b[BODY] = ''
+    return length, b
 
 class JuiceParserBase(DispatchMixin):
 
-- 
2.43.0


From 655f0c14d67fb7e6bb628e4ebe50815cabf460b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:00 +0000
Subject: [PATCH 09/68] fix: drop the connection after a fatal juice error

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index e1c0862..5db23ac 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -225,7 +225,7 @@ class DispatchMixin:
                 code = command.allErrors[key]
                 desc = str(error.value)
                 return Failure(RemoteJuiceError(
-                        code, desc, error in command.fatalErrors))
+                        code, desc, key in command.fatalErrors))
             return maybeDeferred(aCallable, **kw).addCallback(
                 command.makeResponse, proto).addErrback(
                 checkKnownErrors)
-- 
2.43.0


From 09e1f05c7027f374a8b8b4900a50c9993d4a928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 10/68] fix: connect the inner protocol once when a box with a
 body switches protocols

---
 epsilon/juice.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 5db23ac..b2b7f8a 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -915,7 +915,6 @@ class Juice(LineReceiver, JuiceParserBase, object):
             b, self._pendingBox = self._pendingBox, None
             self.juiceBoxReceived(b)
             if self.innerProtocol is not None:
-                self.innerProtocol.makeConnection(self.transport)
                 if extraData:
                     self.innerProtocol.dataReceived(extraData)
             else:
-- 
2.43.0


From b16d9dcfd1c68ab19a48f3334cd11e3d931a7337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:52 +0000
Subject: [PATCH 11/68] fix: let juice commands inherit the errors they declare

---
 epsilon/juice.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index b2b7f8a..a4c0687 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -599,13 +599,15 @@ class _CommandMeta(type):
         def __new__(cls, name, bases, attrs):
             re = attrs['reverseErrors'] = {}
             er = attrs['allErrors'] = {}
-            for v, k in six.viewitems(attrs.get('errors',{})):
+            newtype = type.__new__(cls, name, bases, attrs)
+            # errors and fatalErrors may be inherited
+            for v, k in six.viewitems(getattr(newtype, 'errors', {})):
                 re[k] = v
                 er[v] = k
-            for v, k in six.viewitems(attrs.get('fatalErrors',{})):
+            for v, k in six.viewitems(getattr(newtype, 'fatalErrors', {})):
                 re[k] = v
                 er[v] = k
-            return type.__new__(cls, name, bases, attrs)
+            return newtype
 
 
 @six.add_metaclass(_CommandMeta)
-- 
2.43.0


From b777a7114705ee8f9f59d449a6445639b34bb6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:53 +0000
Subject: [PATCH 12/68] fix: make the juice string argument types work on
 Python 3

---
 epsilon/juice.py | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index a4c0687..abaab59 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -1,6 +1,7 @@
 # -*- test-case-name: epsilon.test.test_juice -*-
 # Copyright 2005 Divmod, Inc.  See LICENSE file for details
 
+import base64
 import warnings, pprint
 import keyword
 import io
@@ -28,6 +29,19 @@ BODY = 'body'
 
 debug = False
 
+def _toBytes(value):
+    """
+    Return the bytes by which the given string is represented on the wire.
+    """
+    return six.ensure_binary(value, errors='surrogateescape')
+
+def _toNative(value):
+    """
+    Return the native string which represents the given bytes from the wire,
+    whatever their encoding.  L{_toBytes} is the inverse.
+    """
+    return six.ensure_str(value, errors='surrogateescape')
+
 class JuiceBox(dict):
     """ I am a packet in the JUICE protocol.  """
 
@@ -65,15 +79,15 @@ class JuiceBox(dict):
         for (k, v) in six.viewitems(self):
             if k == BODY:
                 k = LENGTH
-                v = str(len(six.ensure_binary(self[BODY])))
+                v = str(len(_toBytes(self[BODY])))
             L.append(six.ensure_binary(k).replace(b'_', b'-').title())
             L.append(b': ')
-            L.append(six.ensure_binary(v).replace(delimiter, escaped))
+            L.append(_toBytes(v).replace(delimiter, escaped))
             L.append(delimiter)
 
         L.append(delimiter)
         if BODY in self:
-            L.append(six.ensure_binary(self[BODY]))
+            L.append(_toBytes(self[BODY]))
         return b''.join(L)
 
     def sendTo(self, proto):
@@ -289,14 +303,14 @@ def parseJuiceHeaders(lines):
         if L[0:1] == b' ':
             # continuation
             assert key is not None
-            b[key] += six.ensure_str(b'\r\n' + L[1:])
+            b[key] += _toNative(b'\r\n' + L[1:])
             continue
         parts = L.split(b': ', 1)
         if len(parts) != 2:
             raise MalformedJuiceBox("Wrong number of parts: %r" % (L,))
         key, value = parts
         key = normalizeKey(key)
-        b[key] = six.ensure_str(value)
+        b[key] = _toNative(value)
     length = b.pop(LENGTH, None)
     if length is None:
         return 0, b
@@ -460,16 +474,16 @@ class JuiceList(Argument):
         self.subargs = subargs
 
     def fromStringProto(self, inString, proto):
-        boxes = parseString(six.ensure_binary(inString))
+        boxes = parseString(_toBytes(inString))
         values = [stringsToObjects(box, self.subargs, proto)
                   for box in boxes]
         return values
 
     def toStringProto(self, inObject, proto):
-        return b''.join([
+        return _toNative(b''.join([
             objectsToStrings(objects, self.subargs, Box(), proto).serialize()
             for objects in inObject
-        ])
+        ]))
 
 class ListOf(Argument):
     def __init__(self, subarg, delimiter=', '):
@@ -507,10 +521,10 @@ class EncodedString(Argument):
         self.encoding = encoding
 
     def toString(self, inObject):
-        return inObject.encode(self.encoding)
+        return _toNative(inObject.encode(self.encoding))
 
     def fromString(self, inString):
-        return inString.decode(self.encoding)
+        return _toBytes(inString).decode(self.encoding)
 
 # Temporary backwards compatibility for Exponent
 
@@ -519,18 +533,18 @@ Body = String
 class Unicode(String):
     def toString(self, inObject):
         # assert isinstance(inObject, unicode)
-        return String.toString(self, inObject.encode('utf-8'))
+        return String.toString(self, _toNative(inObject.encode('utf-8')))
 
     def fromString(self, inString):
         # assert isinstance(inString, str)
-        return String.fromString(self, inString).decode('utf-8')
+        return _toBytes(String.fromString(self, inString)).decode('utf-8')
 
 class Path(Unicode):
     def fromString(self, inString):
         return filepath.FilePath(Unicode.fromString(self, inString))
 
     def toString(self, inObject):
-        return Unicode.toString(self, inObject.path)
+        return Unicode.toString(self, six.ensure_text(inObject.path))
 
 
 class Float(Argument):
@@ -539,9 +553,9 @@ class Float(Argument):
 
 class Base64Binary(Argument):
     def toString(self, inObject):
-        return inObject.encode('base64').replace('\n', '')
+        return _toNative(base64.b64encode(inObject))
     def fromString(self, inString):
-        return inString.decode('base64')
+        return base64.b64decode(_toBytes(inString))
 
 class Time(Argument):
     def toString(self, inObject):
@@ -912,7 +926,7 @@ class Juice(LineReceiver, JuiceParserBase, object):
             else:
                 self._bodyBuffer.append(data)
                 extraData = ''
-            self._pendingBox['body'] = six.ensure_str(b''.join(six.ensure_binary(each) for each in self._bodyBuffer))
+            self._pendingBox['body'] = _toNative(b''.join(self._bodyBuffer))
             self._bodyBuffer = None
             b, self._pendingBox = self._pendingBox, None
             self.juiceBoxReceived(b)
-- 
2.43.0


From bcf76bf610a072c5bbd54be3f12b737726297b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:56 +0000
Subject: [PATCH 13/68] fix: order times on Python 3 as well

---
 epsilon/extime.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 33b7103..d7ca201 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -938,6 +938,18 @@ class Time(object):
             raise TypeError("Cannot meaningfully compare %r with %r" % (self, other))
         return cmp(self._time, other._time)
 
+    def __lt__(self, other):
+        return self.__cmp__(other) < 0
+
+    def __le__(self, other):
+        return self.__cmp__(other) <= 0
+
+    def __gt__(self, other):
+        return self.__cmp__(other) > 0
+
+    def __ge__(self, other):
+        return self.__cmp__(other) >= 0
+
     def __eq__(self, other):
         if isinstance(other, Time):
             return cmp(self._time, other._time) == 0
-- 
2.43.0


From 0465336225d3ad1333c2419eddfa336af579ae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:57 +0000
Subject: [PATCH 14/68] fix: apply the sign of an ISO 8601 UTC offset to its
 minutes too

---
 epsilon/extime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index d7ca201..a28b3a3 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -414,7 +414,10 @@ class Time(object):
                 tzhour = groups.pop('tzhour')
                 tzmin = groups.pop('tzmin')
                 if tzhour is not None:
-                    return FixedOffset(int(tzhour), int(tzmin or 0))
+                    tzmin = int(tzmin or 0)
+                    if tzhour.startswith('-'):
+                        tzmin = -tzmin
+                    return FixedOffset(int(tzhour), tzmin)
             return tzinfo or FixedOffset(0, 0)
 
         def coerceGroups():
-- 
2.43.0


From 7de59142a94f68d9a193a155a679ad30e203f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:59 +0000
Subject: [PATCH 15/68] fix: accept ISO 8601 fractions which round up to a
 whole second

---
 epsilon/extime.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index a28b3a3..712b3dd 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -509,7 +509,6 @@ class Time(object):
                     groups['hour'],
                     groups['minute'],
                     groups['second'],
-                    int(round(groups['fractionalsec'] * 1000000)),
                     tzinfo=tzinfo
                 )
                 dtime -= datetime.timedelta(days = dtime.weekday())
@@ -532,7 +531,6 @@ class Time(object):
                     groups['hour'],
                     groups['minute'],
                     groups['second'],
-                    int(round(groups['fractionalsec'] * 1000000)),
                     tzinfo=tzinfo
                 )
                 dtime += datetime.timedelta(days=groups['dayofyear']-1)
@@ -550,7 +548,6 @@ class Time(object):
                     groups['hour'],
                     groups['minute'],
                     groups['second'],
-                    int(round(groups['fractionalsec'] * 1000000)),
                     tzinfo=tzinfo
                 )
 
@@ -567,7 +564,9 @@ class Time(object):
             timezone = calculateTimezone()
         else:
             timezone = None
-        self = klass.fromDatetime(calculateDtime(timezone))
+        self = klass.fromDatetime(
+            calculateDtime(timezone) + datetime.timedelta(
+                microseconds=int(round(groups['fractionalsec'] * 1000000))))
         self.resolution = determineResolution()
         return self
 
-- 
2.43.0


From 28f9d3587f4ae3596a932293bfec450471cc9e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:01 +0000
Subject: [PATCH 16/68] fix: keep fractions of any resolution in ISO 8601
 output

---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 712b3dd..319ac3e 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -788,7 +788,7 @@ class Time(object):
             ('%02i' % (dtime.hour,), datetime.timedelta(hours=1)),
             ('%s%02i' % (timeSep, dtime.minute), datetime.timedelta(minutes=1)),
             ('%s%02i' % (timeSep, dtime.second), datetime.timedelta(seconds=1)),
-            (microsecond, datetime.timedelta(microseconds=1)),
+            (microsecond, datetime.timedelta(microseconds=999999)),
             (timezone, datetime.timedelta(hours=1))
         ]
 
-- 
2.43.0


From 46fe1ec149d40e1b0988776d82ed10ea6b519596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:02 +0000
Subject: [PATCH 17/68] fix: format ISO weeks as weeks

---
 epsilon/extime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 319ac3e..83e0931 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -776,6 +776,10 @@ class Time(object):
         else:
             timezone = ''
 
+        if self.resolution == datetime.timedelta(weeks=1):
+            return '%04i%sW%02i' % (
+                dtime.isocalendar()[0], dateSep, dtime.isocalendar()[1])
+
         microsecond = ('%06i' % (dtime.microsecond,)).rstrip('0')
         if microsecond:
             microsecond = '.' + microsecond
-- 
2.43.0


From edc88f1fbd4075e7ebed288f579fe7baf2666fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:03 +0000
Subject: [PATCH 18/68] fix: parse '12:xx pm'

---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 83e0931..6e0a024 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -230,7 +230,7 @@ class Time(object):
                 raise ValueError('hour %i is not in 1..12' % (hour,))
             if hour == 12 and ampm == 'am':
                 hour = 0
-            elif ampm == 'pm':
+            elif hour != 12 and ampm == 'pm':
                 hour += 12
         if not 0 <= hour <= 23:
             raise ValueError('hour %i is not in 0..23' % (hour,))
-- 
2.43.0


From 5c8aa760ae2531d2ed920f95621d0115c5ff1183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:04 +0000
Subject: [PATCH 19/68] fix: never resolve 'noon' and 'midnight' to a time
 which is already past

---
 epsilon/extime.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 6e0a024..91f69eb 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -252,9 +252,8 @@ class Time(object):
         else:
             assert when == 'midnight'
             hour = 0
-        dtnow = now.asDatetime(tzinfo).replace(
-            minute=0, second=0, microsecond=0)
-        dtthen = dtnow.replace(hour=hour)
+        dtnow = now.asDatetime(tzinfo).replace(second=0, microsecond=0)
+        dtthen = dtnow.replace(hour=hour, minute=0)
         if dtthen < dtnow:
             dtthen += datetime.timedelta(days=1)
 
-- 
2.43.0


From 4f08a3432e4141800290febd3bbe7ce00323645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:05 +0000
Subject: [PATCH 20/68] fix: clamp the day of a parsed date to the length of
 its month

---
 epsilon/extime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 91f69eb..4502a7c 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -5,6 +5,7 @@ Extended date/time formatting and miscellaneous functionality.
 See the class 'Time' for details.
 """
 
+import calendar
 import datetime
 import re
 
@@ -31,6 +32,7 @@ def sanitizeStructTime(struct):
     newstruct = []
     for value, maxValue, minValue in zip(struct[:6], maxValues, minValues):
         newstruct.append(max(minValue, min(value, maxValue)))
+    newstruct[2] = min(newstruct[2], calendar.monthrange(*newstruct[:2])[1])
     return tuple(newstruct) + struct[6:]
 
 def _timedeltaToSignHrMin(offset):
-- 
2.43.0


From 09000c25cc9f954ad3071da2f5f0dbfbac3083e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:06 +0000
Subject: [PATCH 21/68] fix: parse the ISO 8601 year 9999

---
 epsilon/extime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 4502a7c..feae7d5 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -492,8 +492,8 @@ class Time(object):
                 nextMonth = self._time.replace(month=self._time.month+1)
                 return nextMonth - self._time
             else:
-                nextYear = self._time.replace(year=self._time.year+1)
-                return nextYear - self._time
+                return datetime.timedelta(
+                    days=365 + calendar.isleap(self._time.year))
 
         def calculateDtime(tzinfo):
             """Calculate a datetime for the start of the addressed period."""
-- 
2.43.0


From 262a945489f660afb0f4b56516d34544d6fac726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:07 +0000
Subject: [PATCH 22/68] fix: keep the minutes of ISO 8601 hours which begin off
 the hour

---
 epsilon/extime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index feae7d5..8400eb2 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -791,7 +791,10 @@ class Time(object):
             ('%s%02i' % (dateSep, dtime.day), datetime.timedelta(days=1)),
             ('T', datetime.timedelta(hours=1)),
             ('%02i' % (dtime.hour,), datetime.timedelta(hours=1)),
-            ('%s%02i' % (timeSep, dtime.minute), datetime.timedelta(minutes=1)),
+            # An hour in one timezone may begin at any minute in another.
+            ('%s%02i' % (timeSep, dtime.minute),
+             datetime.timedelta(hours=1) if dtime.minute
+             else datetime.timedelta(minutes=1)),
             ('%s%02i' % (timeSep, dtime.second), datetime.timedelta(seconds=1)),
             (microsecond, datetime.timedelta(microseconds=999999)),
             (timezone, datetime.timedelta(hours=1))
-- 
2.43.0


From 2d330c7cea0401f9288e1d2e0c93fc031933147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:09 +0000
Subject: [PATCH 23/68] fix: give FixedOffset a timezone name which is a string

---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 8400eb2..630c02d 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -92,7 +92,7 @@ class FixedOffset(datetime.tzinfo):
         return self.offset
 
     def tzname(self, dt):
-        return _timedeltaToSignHrMin(self.offset)
+        return '%s%02i%02i' % _timedeltaToSignHrMin(self.offset)
 
     def dst(self, tz):
         return self._zeroOffset
-- 
2.43.0


From 55352557a3fbee8c88adee3f2c6cd19f6d3779c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:48 +0000
Subject: [PATCH 24/68] fix: keep the mode of modal classes in their own mode
 attribute

---
 epsilon/modal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index bfc4cb2..84b38c5 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -101,7 +101,7 @@ class ModalType(type):
         # for that mode.
         implementations = {}
 
-        keepAttrs = {'mode': initialMode}
+        keepAttrs = {modeAttribute: initialMode}
         for (k, v) in six.iteritems(attrs):
             if isinstance(v, type) and issubclass(v, mode):
                 for (methName, methDef) in six.iteritems(v.__dict__):
@@ -130,6 +130,6 @@ class Modal(object):
 
     def transitionTo(self, stateName):
         self.__exit__()
-        self.mode = stateName
+        setattr(self, self.modeAttribute, stateName)
         self.__enter__()
 
-- 
2.43.0


From a732fe3118589ca57e9c84b0e10463ba595fe282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:49 +0000
Subject: [PATCH 25/68] fix: remember None too, and separately for each
 attribute

---
 epsilon/remember.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/epsilon/remember.py b/epsilon/remember.py
index 148c670..c32fcdf 100644
--- a/epsilon/remember.py
+++ b/epsilon/remember.py
@@ -20,16 +20,21 @@ class remembered(record('creationFunction')):
     """
 
     value = None
+    attributeName = None
+
+    def __set_name__(self, owner, name):
+        self.attributeName = name
+
 
     def __get__(self, oself, type):
         """
         Retrieve the value if already cached, otherwise, call the
         C{creationFunction} to create it.
         """
-        remembername = "_remembered_" + self.creationFunction.__name__
-        rememberedval = oself.__dict__.get(remembername, None)
-        if rememberedval is not None:
-            return rememberedval
+        remembername = "_remembered_" + (
+            self.attributeName or self.creationFunction.__name__)
+        if remembername in oself.__dict__:
+            return oself.__dict__[remembername]
         rememberme = self.creationFunction(oself)
         oself.__dict__[remembername] = rememberme
         return rememberme
-- 
2.43.0


From ea30c5943ca3b40aa5747e480298349111367b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:50 +0000
Subject: [PATCH 26/68] fix: exchange benchmark marks as bytes

---
 epsilon/scripts/benchmark.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 1b28212..c27080e 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -230,8 +230,8 @@ class Change(object):
 
 class BenchmarkProcess(BasicProcess):
 
-    START = '\0'
-    STOP = '\1'
+    START = b'\0'
+    STOP = b'\1'
 
 
     def __init__(self, *a, **kw):
@@ -266,7 +266,7 @@ class BenchmarkProcess(BasicProcess):
     def childDataReceived(self, childFD, data):
         if childFD == self.BACKCHANNEL_OUT:
             self.resetTimeout()
-            for byte in data:
+            for byte in [data[i:i + 1] for i in range(len(data))]:
                 if byte == self.START:
                     self.startTiming()
                 elif byte == self.STOP:
-- 
2.43.0


From c0acdd15585141f24ca0c34bad12334d32e919d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:51 +0000
Subject: [PATCH 27/68] fix: find the mount point which really contains the
 working directory

---
 epsilon/scripts/benchmark.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index c27080e..5956101 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -6,7 +6,7 @@ usage information and other statistics about it.
 """
 from __future__ import print_function
 
-import os, time, sys, socket, io, pprint, errno
+import os, re, time, sys, socket, io, pprint, errno
 
 import six
 import twisted
@@ -419,18 +419,20 @@ def discoverCurrentWorkingDevice(procMounts='/proc/self/mounts'):
     Return a short string naming the device which backs the current working
     directory, ie C{/dev/hda1}.
     """
-    possibilities = []
+    device = '<unknown>'
+    deviceMountPoint = ''
     cwd = os.getcwd()
     with io.open(procMounts, 'r') as f:
         for L in f:
             parts = L.split()
-            if cwd.startswith(parts[1]):
-                possibilities.append((len(parts[1]), parts[0]))
-    possibilities.sort()
-    try:
-        return possibilities[-1][-1]
-    except IndexError:
-        return '<unknown>'
+            # Blanks and backslashes are given as octal escapes.
+            mountPoint = re.sub(
+                r'\\([0-7]{3})', lambda m: chr(int(m.group(1), 8)), parts[1])
+            if (cwd + '/').startswith(mountPoint.rstrip('/') + '/'):
+                # A later mount hides an earlier one on the same mount point.
+                if len(mountPoint) >= len(deviceMountPoint):
+                    device, deviceMountPoint = parts[0], mountPoint
+    return device
 
 
 
-- 
2.43.0


From 95fc1ad25acceada317afb33a9eac2497676a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:52 +0000
Subject: [PATCH 28/68] fix: make tracers uninstallable and spewing work on
 Python 3

---
 epsilon/spewer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index f11d032..f569c77 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -22,7 +22,7 @@ class Tracer(object):
     def uninstall(self):
         self.installed = False
         sys.settrace(None)
-        threading.setttrace(None)
+        threading.settrace(None)
 
     def toggle(self):
         if self.installed:
@@ -66,7 +66,7 @@ def extractArgs(frame):
 
 
 def formatArgs(args):
-    return ', '.join(['='.join((k, reflect.safe_repr(v))) for (k, v) in args.iteritems()])
+    return ', '.join(['='.join((k, reflect.safe_repr(v))) for (k, v) in args.items()])
 
 
 class Spewer(Tracer):
-- 
2.43.0


From 8ed103aed2ee131ff834a04bef0b44a7daae0c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:53 +0000
Subject: [PATCH 29/68] fix: expand project templates on Python 3

---
 epsilon/asplode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/asplode.py b/epsilon/asplode.py
index f04e56a..4a27211 100644
--- a/epsilon/asplode.py
+++ b/epsilon/asplode.py
@@ -21,7 +21,7 @@ def splode(linerator, proj, capproj):
                 os.makedirs(os.path.dirname(fname))
             except:
                 pass
-            current = file(fname, 'wb')
+            current = open(fname, 'w')
             status('Created: ' + fname)
         else:
             current.write(line)
-- 
2.43.0


From e668f97901eb3a9f653fb016d57277dbb055734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:54 +0000
Subject: [PATCH 30/68] fix: tolerate a reactor which something else is already
 stopping

---
 epsilon/react.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/epsilon/react.py b/epsilon/react.py
index e6bfed3..7b42f3c 100644
--- a/epsilon/react.py
+++ b/epsilon/react.py
@@ -5,6 +5,7 @@
 Utilities for running the reactor for a while.
 """
 
+from twisted.internet.error import ReactorNotRunning
 from twisted.python.log import err
 
 
@@ -26,9 +27,15 @@ def react(reactor, main, argv):
     reactor.addSystemEventTrigger('before', 'shutdown', stopping.append, True)
     finished = main(reactor, *argv)
     finished.addErrback(err, "main function encountered error")
+    def stop():
+        try:
+            reactor.stop()
+        except ReactorNotRunning:
+            # Something else stopped it first.
+            pass
     def cbFinish(ignored):
         if not stopping:
-            reactor.callWhenRunning(reactor.stop)
+            reactor.callWhenRunning(stop)
     finished.addCallback(cbFinish)
     reactor.run()
 
-- 
2.43.0


From 7a2effc5ed956e01ce366d479e3b66cf99b840b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:55 +0000
Subject: [PATCH 31/68] fix: let the deferredgenerator_tfailure hotfix be
 required where it does not apply

---
 epsilon/hotfix.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/epsilon/hotfix.py b/epsilon/hotfix.py
index d8ad39d..ba6f272 100644
--- a/epsilon/hotfix.py
+++ b/epsilon/hotfix.py
@@ -30,17 +30,18 @@ def require(packageName, fixName):
             delayedcall_seconds.install()
     elif (packageName, fixName) == ('twisted', 'deferredgenerator_tfailure'):
         from twisted.internet import defer
-        result = []
-        def test():
-            d = defer.waitForDeferred(defer.succeed(1))
-            yield d
-            result.append(d.getResult())
-        defer.deferredGenerator(test)()
-        if result == [1]:
-            from epsilon.hotfixes import deferredgenerator_tfailure
-            deferredgenerator_tfailure.install()
-        else:
-            assert result == [None]
+        if hasattr(defer, 'deferredGenerator'):
+            result = []
+            def test():
+                d = defer.waitForDeferred(defer.succeed(1))
+                yield d
+                result.append(d.getResult())
+            defer.deferredGenerator(test)()
+            if result == [1]:
+                from epsilon.hotfixes import deferredgenerator_tfailure
+                deferredgenerator_tfailure.install()
+            else:
+                assert result == [None]
     elif (packageName, fixName) == ("twisted", "proto_helpers_stringtransport"):
         from twisted.test.proto_helpers import StringTransport
         st = StringTransport()
-- 
2.43.0


From 52a3db07e70173fa4bc6b6ed1b196eb5e844efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:18 +0000
Subject: [PATCH 32/68] fix: make epsilon.process importable without the imp
 module

---
 epsilon/process.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index 3a4c2c7..21eb3e2 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -5,11 +5,10 @@
 Process and stdio related functionality.
 """
 
-import os, sys, imp
-
-from zope.interface import implements
+import os, sys
 
 from twisted.internet import reactor
+from twisted.python.modules import getModule
 from twisted.application.service import IService, Service
 from twisted.internet.stdio import StandardIO
 
@@ -31,7 +30,10 @@ def spawnProcess(processProtocol, executable, args=(), env={},
 
     pythonpath = []
     for pkg in packages:
-        p = os.path.split(imp.find_module(pkg)[1])[0]
+        module = getModule(pkg)
+        p = module.filePath.dirname()
+        if module.isPackage():
+            p = os.path.dirname(p)
         if p.startswith(os.path.join(sys.prefix, 'lib')):
             continue
         pythonpath.append(p)
-- 
2.43.0


From 21252e2077a4f82505ba8b1ab5fb659b7b2b5ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:02 +0000
Subject: [PATCH 33/68] fix: do not leave the route name in boxes sent through
 a route

---
 epsilon/amprouter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index c829dc9..7309dee 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -6,6 +6,7 @@ This module provides an implementation of I{Routes}, a system for multiplexing
 multiple L{IBoxReceiver}/I{IBoxSender} pairs over a single L{AMP} connection.
 """
 
+from copy import copy
 from itertools import count
 
 import six
@@ -98,6 +99,8 @@ class Route(record('router receiver localRouteName remoteRouteName',
             if isinstance(box, AmpBox) and isinstance(routeName, six.text_type):
                 # Only bytes can be put on the wire.
                 routeName = routeName.encode('utf-8')
+            # The box belongs to the caller, who may send it elsewhere too.
+            box = copy(box)
             box[_ROUTE] = routeName
         self.router._sender.sendBox(box)
 
-- 
2.43.0


From 8609e31d59289c7db512283aa6b063b01db60ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:07 +0000
Subject: [PATCH 34/68] fix: keep the boxes already held back when preparing
 for TLS again

---
 epsilon/juice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index abaab59..92d05d6 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -860,7 +860,8 @@ class Juice(LineReceiver, JuiceParserBase, object):
     _startingTLSBuffer = None
 
     def prepareTLS(self):
-        self._startingTLSBuffer = []
+        if self._startingTLSBuffer is None:
+            self._startingTLSBuffer = []
 
     def startTLS(self, certificate, *verifyAuthorities):
         if self.hostCertificate is None:
-- 
2.43.0


From 267afcdb26ca9f3c66cd7cc0e6ab3747a6404312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:45 +0000
Subject: [PATCH 35/68] fix: tell a protocol switched to after the connection
 was lost that it was lost

---
 epsilon/juice.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 92d05d6..67f3f11 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -814,6 +814,9 @@ class Juice(LineReceiver, JuiceParserBase, object):
         self.innerProtocol = newProto
         self.innerProtocolClientFactory = clientFactory
         newProto.makeConnection(self.transport)
+        if self._outstandingRequests is None:
+            # The connection was lost while the switch was being decided.
+            newProto.connectionLost(Failure(CONNECTION_LOST))
 
     innerProtocolClientFactory = None
 
-- 
2.43.0


From fd38f438f35b09f2a5272e5d81340edfe13cd510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:58 +0000
Subject: [PATCH 36/68] fix: refuse records which name an attribute twice

---
 epsilon/structlike.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/epsilon/structlike.py b/epsilon/structlike.py
index a9cbbf8..9af2b56 100644
--- a/epsilon/structlike.py
+++ b/epsilon/structlike.py
@@ -156,6 +156,10 @@ def record(*a, **kw):
         raise TypeError(
             "record must be called with zero or one positional arguments")
 
+    if len(set(attributeNames)) != len(attributeNames):
+        raise TypeError(
+            "Attribute names must be unique: %r" % (attributeNames,))
+
     # Work like Python: allow defaults specified backwards from the end
     defaults = []
     for attributeName in attributeNames:
-- 
2.43.0


From 178fe52f1b4c25659dccc10d262edc946f8fc5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:59 +0000
Subject: [PATCH 37/68] fix: report to every scheduled iterator that the
 service stopped

---
 epsilon/cooperator.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/epsilon/cooperator.py b/epsilon/cooperator.py
index a6b6113..389baa2 100644
--- a/epsilon/cooperator.py
+++ b/epsilon/cooperator.py
@@ -17,15 +17,28 @@ class SchedulingService(Service):
     """
     def __init__(self):
         self.coop = Cooperator(started=False)
+        self._tasks = []
 
     def addIterator(self, iterator):
-        return self.coop.coiterate(iterator)
+        task = self.coop.cooperate(iterator)
+        self._tasks.append(task)
+        def finished(result):
+            self._tasks.remove(task)
+            return result
+        return task.whenDone().addBoth(finished)
 
     def startService(self):
         self.coop.start()
 
     def stopService(self):
+        # Cooperator.stop passes over every other task it has, so leave it
+        # none, and hand each one back to it once it refuses them.
+        tasks = list(self._tasks)
+        for task in tasks:
+            task.pause()
         self.coop.stop()
+        for task in tasks:
+            task.resume()
 
 __all__ = [
     'SchedulerStopped', 'Cooperator',
-- 
2.43.0


From 8c97408c88f4d79da14933109b88faa4d69e4fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:03 +0000
Subject: [PATCH 38/68] fix: tell a misbehaving benchmark to quit with a signal
 Twisted can send

---
 epsilon/scripts/benchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 5956101..b3087e8 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -6,7 +6,7 @@ usage information and other statistics about it.
 """
 from __future__ import print_function
 
-import os, re, time, sys, socket, io, pprint, errno
+import os, re, time, sys, socket, io, pprint, errno, signal
 
 import six
 import twisted
@@ -272,7 +272,7 @@ class BenchmarkProcess(BasicProcess):
                 elif byte == self.STOP:
                     self.stopTiming()
                 else:
-                    self.transport.signalProcess('QUIT')
+                    self.transport.signalProcess(signal.SIGQUIT)
         else:
             return BasicProcess.childDataReceived(self, childFD, data)
 
-- 
2.43.0


From c10a01c589424caa5d61bfb23d56020291ef5d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:48 +0000
Subject: [PATCH 39/68] fix: report keyword-only arguments of traced calls

---
 epsilon/spewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index f569c77..829a799 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -55,7 +55,7 @@ class Tracer(object):
 def extractArgs(frame):
     co = frame.f_code
     dict = frame.f_locals
-    n = co.co_argcount
+    n = co.co_argcount + getattr(co, 'co_kwonlyargcount', 0)
     if co.co_flags & 4: n = n+1
     if co.co_flags & 8: n = n+1
     result = {}
-- 
2.43.0


From b3b57d86a12c3c0e0d4a1640c9e8e54dfc5c0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:58 +0000
Subject: [PATCH 40/68] fix: tell a protocol which loses its connection when
 switched to of that once only

---
 epsilon/juice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 67f3f11..f36aa01 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -813,9 +813,10 @@ class Juice(LineReceiver, JuiceParserBase, object):
         self.setRawMode()
         self.innerProtocol = newProto
         self.innerProtocolClientFactory = clientFactory
+        # The connection may have been lost while the switch was being decided.
+        lost = self._outstandingRequests is None
         newProto.makeConnection(self.transport)
-        if self._outstandingRequests is None:
-            # The connection was lost while the switch was being decided.
+        if lost:
             newProto.connectionLost(Failure(CONNECTION_LOST))
 
     innerProtocolClientFactory = None
-- 
2.43.0


From 62283cab75fa3f2f17241a82ebfc9a5137e0a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:23 +0000
Subject: [PATCH 41/68] fix: run the enter and exit a mode inherits when an
 object changes mode

---
 epsilon/modal.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index 84b38c5..2f41202 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -49,10 +49,6 @@ class mode(object):
     subclass should have the same name as the mode it is defining.
     """
 
-    # XXX fix the simple, but wrong, __dict__ magic in ModalType.__new__ so
-    # that this __enter__ and __exit__ are actually called, maybe we can even
-    # do some logging or something.
-
     def __exit__(self):
         """
         The mode has just been exited.
@@ -104,9 +100,13 @@ class ModalType(type):
         keepAttrs = {modeAttribute: initialMode}
         for (k, v) in six.iteritems(attrs):
             if isinstance(v, type) and issubclass(v, mode):
-                for (methName, methDef) in six.iteritems(v.__dict__):
-                    if methName not in ('__module__', '__file__', '__name__'):
-                        implementations.setdefault(methName, {})[k] = methDef
+                # Walk towards v itself, so that what it inherits from mode (or
+                # from another definition of a mode) is there unless overridden.
+                for modeClass in reversed(v.__mro__[:-1]):
+                    for (methName, methDef) in six.iteritems(modeClass.__dict__):
+                        if methName not in ('__module__', '__file__', '__name__',
+                                            '__doc__', '__dict__', '__weakref__'):
+                            implementations.setdefault(methName, {})[k] = methDef
             keepAttrs[k] = v
 
         for (methName, methDefs) in six.viewitems(implementations):
-- 
2.43.0


From 38e8a9fb84f7d4daceb8b73e7d55b0e5ff9fbdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:41 +0000
Subject: [PATCH 42/68] fix: keep the modes of a base class when a subclass
 defines more of them

---
 epsilon/modal.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index 2f41202..f153f56 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -110,6 +110,15 @@ class ModalType(type):
             keepAttrs[k] = v
 
         for (methName, methDefs) in six.viewitems(implementations):
+            # Modes defined by a base class still have their implementations.
+            for base in bases:
+                for baseClass in base.__mro__:
+                    if methName in baseClass.__dict__:
+                        inherited = baseClass.__dict__[methName]
+                        if isinstance(inherited, ModalMethod):
+                            for (k, methDef) in six.iteritems(inherited.methods):
+                                methDefs.setdefault(k, methDef)
+                        break
             keepAttrs[methName] = ModalMethod(methName, methDefs, modeAttribute)
 
         return super(ModalType, cls).__new__(cls, name, bases, keepAttrs)
-- 
2.43.0


From 2b3672d763ce1304711a6cebf54518fbdd5dd1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:52 +0000
Subject: [PATCH 43/68] fix: do not forget the request of an error box that
 lacks its code or description

---
 epsilon/juice.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index f36aa01..0186571 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -355,11 +355,10 @@ class JuiceParserBase(DispatchMixin):
             question.addErrback(self._puke)
             self._wrap(question.callback)(box)
         elif ERROR in box:
+            error = RemoteJuiceError(box[ERROR_CODE], box[ERROR_DESCRIPTION])
             question = self._outstandingRequests.pop(box[ERROR])
             question.addErrback(self._puke)
-            self._wrap(question.errback)(
-                Failure(RemoteJuiceError(box[ERROR_CODE],
-                                         box[ERROR_DESCRIPTION])))
+            self._wrap(question.errback)(Failure(error))
         elif COMMAND in box:
             cmd = box[COMMAND]
             def sendAnswer(answerBox):
-- 
2.43.0


From 3a0a0ddad3216df24e02dab3e379adcd43cb2926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:11 +0000
Subject: [PATCH 44/68] fix: remember an attribute separately from the one it
 overrides

---
 epsilon/remember.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epsilon/remember.py b/epsilon/remember.py
index c32fcdf..831d76e 100644
--- a/epsilon/remember.py
+++ b/epsilon/remember.py
@@ -23,7 +23,10 @@ class remembered(record('creationFunction')):
     attributeName = None
 
     def __set_name__(self, owner, name):
-        self.attributeName = name
+        # Not just the name, since a subclass may override this attribute and
+        # still use it.
+        self.attributeName = '%s.%s.%s' % (
+            owner.__module__, owner.__qualname__, name)
 
 
     def __get__(self, oself, type):
-- 
2.43.0


From fe1c34007a0cd0fdf60fee79ca058c406fe6c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:30 +0000
Subject: [PATCH 45/68] fix: find a benchmark script named relative to the
 current directory

---
 epsilon/scripts/benchmark.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index b3087e8..2154f36 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -573,7 +573,11 @@ def main():
     name = sys.argv[1]
     path = filepath.FilePath('.stat').temporarySibling()
     path.makedirs()
-    func = makeBenchmarkRunner(path, sys.argv[1:])
+    args = sys.argv[1:]
+    if os.path.exists(name):
+        # The child runs in another directory.
+        args[0] = os.path.abspath(name)
+    func = makeBenchmarkRunner(path, args)
     try:
         bench(name, path, func)
     finally:
-- 
2.43.0


From 80014669fd7e38317805616aff3d18a5543e14cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:58 +0000
Subject: [PATCH 46/68] fix: send a protocol switch command in the namespace
 asked for

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 0186571..e76f8f0 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -720,7 +720,7 @@ class ProtocolSwitchCommand(Command):
     makeResponse = classmethod(makeResponse)
 
     def do(self, proto, namespace=None):
-        d = super(ProtocolSwitchCommand, self).do(proto)
+        d = super(ProtocolSwitchCommand, self).do(proto, namespace)
         proto._lock()
         def switchNow(ign):
             innerProto = self.protoToSwitchToFactory.buildProtocol(proto.transport.getPeer())
-- 
2.43.0


From e8e4dc55017c404b5f1496fa25f86ac44cdb2d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:29 +0000
Subject: [PATCH 47/68] fix: report an unknown command in a namespace as
 unhandled

---
 epsilon/juice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index e76f8f0..748c90a 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -270,7 +270,9 @@ class DispatchMixin:
             # pass the namespace along
             return self._auto(fObj, proto, namespace)
 
-        assert namespace is None, 'Old-style parsing'
+        # Old-style commands are not in any namespace.
+        if namespace is not None:
+            return None
         # Fall back to simplistic command dispatching - we probably want to get
         # rid of this eventually, there's no reason to do extra work and write
         # fewer docs all the time.
-- 
2.43.0


From 6efc6b048a73b3884637c6204da5bd168b457f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:27 +0000
Subject: [PATCH 48/68] fix: let the iteration over plugin modules be abandoned

---
 epsilon/setuphelper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epsilon/setuphelper.py b/epsilon/setuphelper.py
index 479e503..1bc18fc 100644
--- a/epsilon/setuphelper.py
+++ b/epsilon/setuphelper.py
@@ -9,7 +9,7 @@ def pluginModules(moduleNames):
     from twisted.python.reflect import namedAny
     for moduleName in moduleNames:
         try:
-            yield namedAny(moduleName)
+            module = namedAny(moduleName)
         except ImportError:
             pass
         except ValueError as ve:
@@ -17,6 +17,8 @@ def pluginModules(moduleNames):
                 traceback.print_exc()
         except:
             traceback.print_exc()
+        else:
+            yield module
 
 def _regeneratePluginCache(pluginPackages):
     print('Regenerating cache with path: ')
-- 
2.43.0


From a75a3c1e39fd0c40f8f99d69d8ab270a05d29209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:00 +0000
Subject: [PATCH 49/68] fix: refresh the other plugin caches when one plugin
 package cannot be scanned

---
 epsilon/setuphelper.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/epsilon/setuphelper.py b/epsilon/setuphelper.py
index 1bc18fc..0fc4ef8 100644
--- a/epsilon/setuphelper.py
+++ b/epsilon/setuphelper.py
@@ -28,7 +28,14 @@ def _regeneratePluginCache(pluginPackages):
         p + ".plugins" for p in pluginPackages]):
         # Not just *some* zigs, mind you - *every* zig:
         print('Full plugin list for %r: ' % (pluginModule.__name__))
-        pprint.pprint(list(plugin.getPlugins(plugin.IPlugin, pluginModule)))
+        try:
+            plugins = list(plugin.getPlugins(plugin.IPlugin, pluginModule))
+        except Exception:
+            # For example because the package it is in is not installed, and
+            # is taken for a namespace package.
+            traceback.print_exc()
+        else:
+            pprint.pprint(plugins)
 
 def regeneratePluginCache(dist, pluginPackages):
     if 'install' in dist.commands:
-- 
2.43.0


From 6e6cad5ef5d4de49e7dae3bb12e96ae8a1c4c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:54 +0000
Subject: [PATCH 50/68] fix: survive a plugin module which fails with a
 ValueError without arguments

---
 epsilon/setuphelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/setuphelper.py b/epsilon/setuphelper.py
index 0fc4ef8..187e21a 100644
--- a/epsilon/setuphelper.py
+++ b/epsilon/setuphelper.py
@@ -13,7 +13,7 @@ def pluginModules(moduleNames):
         except ImportError:
             pass
         except ValueError as ve:
-            if ve.args[0] != 'Empty module name':
+            if ve.args[:1] != ('Empty module name',):
                 traceback.print_exc()
         except:
             traceback.print_exc()
-- 
2.43.0


From ae9ee9ecc5aa666e33a7a816456297b834141366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:16 +0000
Subject: [PATCH 51/68] fix: log an AMP avatar out even if it fails to stop

---
 epsilon/ampauth.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/epsilon/ampauth.py b/epsilon/ampauth.py
index cab3b6e..17a6f84 100644
--- a/epsilon/ampauth.py
+++ b/epsilon/ampauth.py
@@ -229,10 +229,13 @@ class CredReceiver(AMP):
         If a login has happened, perform a logout.
         """
         self._disconnected = True
-        AMP.connectionLost(self, reason)
-        if self.logout is not None:
-            self.logout()
-            self.boxReceiver = self.logout = None
+        try:
+            AMP.connectionLost(self, reason)
+        finally:
+            # Even if the avatar failed to stop.
+            if self.logout is not None:
+                self.logout()
+                self.boxReceiver = self.logout = None
 
 
 
-- 
2.43.0


From 27a599ad040d9edb2193608b690deea63e000e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:13 +0000
Subject: [PATCH 52/68] fix: stop every receiver of a router even if one of
 them fails to

---
 epsilon/amprouter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 7309dee..36b4ae0 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -11,6 +11,7 @@ from itertools import count
 
 import six
 from twisted.protocols.amp import AmpBox, IBoxReceiver, IBoxSender
+from twisted.python.log import err
 from zope.interface import implementer
 
 from epsilon.structlike import record
@@ -229,7 +230,11 @@ class Router:
         # Receivers may bind and unbind routes when they are stopped.
         for route in list(six.viewvalues(self._routes)):
             if self._routes.get(route.localRouteName) is route:
-                route.stop(reason)
+                try:
+                    route.stop(reason)
+                except Exception:
+                    # The other receivers have to be stopped nevertheless.
+                    err(None, "Receiver failed to stop")
         self._routes = None
 
 
-- 
2.43.0


From c730eb33a865b2c5581c69b7686b1d3873d0b37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:42 +0000
Subject: [PATCH 53/68] fix: use a delimiter changed by a callback from the
 next line on

---
 epsilon/liner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/liner.py b/epsilon/liner.py
index 4b7bb4e..8b4ad37 100644
--- a/epsilon/liner.py
+++ b/epsilon/liner.py
@@ -54,12 +54,13 @@ class LineReceiver(Protocol):
         into the buffer meanwhile, C{False} if there is nothing left to do.
         """
         buffer, self.buffer = self.buffer, b''
-        delimiter = self.delimiter
         begin = 0
         while self.lineMode:
             if self.isDisconnecting():
                 self.buffer = b''
                 return False
+            # A callback may have changed it.
+            delimiter = self.delimiter
             end = buffer.find(delimiter, begin)
             if end == -1:
                 extra = self.buffer
-- 
2.43.0


From 0b6adbe0a39631b86ef5cc4c95d62c2cd13f1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:57 +0000
Subject: [PATCH 54/68] fix: do not add the working directory to the search
 path of children

---
 epsilon/process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index 21eb3e2..35aced5 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -38,7 +38,9 @@ def spawnProcess(processProtocol, executable, args=(), env={},
             continue
         pythonpath.append(p)
     pythonpath = list(set(pythonpath))
-    pythonpath.extend(env.get('PYTHONPATH', '').split(os.pathsep))
+    if env.get('PYTHONPATH'):
+        # An empty entry would stand for the working directory.
+        pythonpath.extend(env['PYTHONPATH'].split(os.pathsep))
     env['PYTHONPATH'] = os.pathsep.join(pythonpath)
 
     return reactor.spawnProcess(processProtocol, executable, args,
-- 
2.43.0


From 2d5d5a228ba3c356492e52a9f88a50f473608497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:52 +0000
Subject: [PATCH 55/68] fix: transitions of a modal class change the attribute
 its methods look at

---
 epsilon/modal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index f153f56..cef0ad2 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -89,7 +89,7 @@ class ModalType(type):
     @ivar initialMode: The mode in which instances will start.
     """
     def __new__(cls, name, bases, attrs):
-        modeAttribute = _getInheritedAttribute(name, 'modeAttribute', bases, attrs)
+        modeAttribute = attrs['modeAttribute'] = _getInheritedAttribute(name, 'modeAttribute', bases, attrs)
         initialMode = attrs['initialMode'] = _getInheritedAttribute(name, 'initialMode', bases, attrs)
 
         # Dict mapping names of methods to another dict.  The inner
-- 
2.43.0


From 8f9f98823d7e2254d5d99f27203f00fc53f7876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:30 +0000
Subject: [PATCH 56/68] fix: a modal class has the modes of all of its base
 classes

---
 epsilon/modal.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index cef0ad2..3947371 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -110,18 +110,30 @@ class ModalType(type):
             keepAttrs[k] = v
 
         for (methName, methDefs) in six.viewitems(implementations):
-            # Modes defined by a base class still have their implementations.
-            for base in bases:
-                for baseClass in base.__mro__:
-                    if methName in baseClass.__dict__:
-                        inherited = baseClass.__dict__[methName]
-                        if isinstance(inherited, ModalMethod):
-                            for (k, methDef) in six.iteritems(inherited.methods):
-                                methDefs.setdefault(k, methDef)
-                        break
             keepAttrs[methName] = ModalMethod(methName, methDefs, modeAttribute)
 
-        return super(ModalType, cls).__new__(cls, name, bases, keepAttrs)
+        self = super(ModalType, cls).__new__(cls, name, bases, keepAttrs)
+
+        # Modes defined by any base class still have their implementations,
+        # unless an ordinary attribute hides them.
+        inherited = set()
+        for baseClass in self.__mro__[1:]:
+            inherited.update(k for (k, v) in six.iteritems(baseClass.__dict__)
+                             if isinstance(v, ModalMethod))
+        for methName in inherited:
+            methDefs = {}
+            for baseClass in self.__mro__:
+                if methName in baseClass.__dict__:
+                    modal = baseClass.__dict__[methName]
+                    if not isinstance(modal, ModalMethod):
+                        break
+                    for (k, methDef) in six.iteritems(modal.methods):
+                        methDefs.setdefault(k, methDef)
+            if methDefs:
+                setattr(self, methName,
+                        ModalMethod(methName, methDefs, modeAttribute))
+
+        return self
 
 
 @six.add_metaclass(ModalType)
-- 
2.43.0


From 159342d2aad5ba42412e2f06ab901aae6a22f368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:38 +0000
Subject: [PATCH 57/68] fix: an exception does not move the rest of a trace to
 the left

The return of the call it passes through is reported as well, and ends the
call.
---
 epsilon/spewer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index 829a799..41caffa 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -105,7 +105,6 @@ class Spewer(Tracer):
             id(threading.currentThread()),
             self.callDepth * ' ',
             reflect.safe_repr(arg),))
-        self.callDepth = max(0, self.callDepth - 1)
 
 
 class SignalService(service.Service):
-- 
2.43.0


From 4d60b2bd54ac0e1d59f9dff53bd536754e7f10e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:51 +0000
Subject: [PATCH 58/68] fix: a trace begins at the margin, also after an
 earlier one

---
 epsilon/spewer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index 41caffa..8b04d58 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -72,6 +72,12 @@ def formatArgs(args):
 class Spewer(Tracer):
     callDepth = 0
 
+    def install(self):
+        if not self.installed:
+            # Calls under way when tracing last ended never returned here.
+            self.callDepth = 0
+        Tracer.install(self)
+
     def trace_CALL(self, frame, arg):
         self.callDepth += 1
 
-- 
2.43.0


From 26968577b8d1beea89f23ac9e5f749e24c8a4aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:37 +0000
Subject: [PATCH 59/68] fix: the Clock hotfix can order calls on Python 3

---
 epsilon/hotfixes/internet_task_clock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/hotfixes/internet_task_clock.py b/epsilon/hotfixes/internet_task_clock.py
index 6027967..88fce8d 100644
--- a/epsilon/hotfixes/internet_task_clock.py
+++ b/epsilon/hotfixes/internet_task_clock.py
@@ -15,7 +15,7 @@ def callLater(self, when, what, *a, **kw):
                            lambda c: None,
                            self.seconds)
     self.calls.append(dc)
-    self.calls.sort(lambda a, b: cmp(a.getTime(), b.getTime()))
+    self.calls.sort(key=lambda call: call.getTime())
     return dc
 
 def clockIsBroken():
-- 
2.43.0


From bcef329efb4a954f155bfe961bf54417a1d42ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:38 +0000
Subject: [PATCH 60/68] fix: the StringTransport hotfix can be installed on
 Python 3

---
 epsilon/hotfixes/proto_helpers_stringtransport.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/epsilon/hotfixes/proto_helpers_stringtransport.py b/epsilon/hotfixes/proto_helpers_stringtransport.py
index 038768a..955f351 100644
--- a/epsilon/hotfixes/proto_helpers_stringtransport.py
+++ b/epsilon/hotfixes/proto_helpers_stringtransport.py
@@ -1,11 +1,13 @@
+import six
+
 from twisted.test import proto_helpers
 
 class StringTransport:
 
     def write(self, data):
-        if isinstance(data, unicode): # no, really, I mean it
+        if isinstance(data, six.text_type): # no, really, I mean it
             raise TypeError("Data must not be unicode")
         self.io.write(data)
 
 def install():
-    proto_helpers.StringTransport.__dict__['write'] = StringTransport.__dict__['write']
+    proto_helpers.StringTransport.write = StringTransport.__dict__['write']
-- 
2.43.0


From 51a7c948eb6bd15671704a3bda1e3af11c23b02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:39 +0000
Subject: [PATCH 61/68] fix: the deferredGenerator hotfix advances generators
 on Python 3

---
 epsilon/hotfixes/deferredgenerator_tfailure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/hotfixes/deferredgenerator_tfailure.py b/epsilon/hotfixes/deferredgenerator_tfailure.py
index aff9ede..a03c622 100644
--- a/epsilon/hotfixes/deferredgenerator_tfailure.py
+++ b/epsilon/hotfixes/deferredgenerator_tfailure.py
@@ -17,7 +17,7 @@ def _deferGenerator(g, deferred=None):
         if deferred is None:
             deferred = defer.Deferred()
         try:
-            result = g.next()
+            result = next(g)
         except StopIteration:
             deferred.callback(result)
             return deferred
-- 
2.43.0


From 1d1f2aa855d11d92b502752e16cc257a3947693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:41 +0000
Subject: [PATCH 62/68] fix: a Deferred yielded late by a deferredGenerator is
 reported

---
 epsilon/hotfixes/deferredgenerator_tfailure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/hotfixes/deferredgenerator_tfailure.py b/epsilon/hotfixes/deferredgenerator_tfailure.py
index a03c622..d28b045 100644
--- a/epsilon/hotfixes/deferredgenerator_tfailure.py
+++ b/epsilon/hotfixes/deferredgenerator_tfailure.py
@@ -30,7 +30,8 @@ def _deferGenerator(g, deferred=None):
         # they yield a Deferred. Perhaps eventually these semantics may
         # change.
         if isinstance(result, defer.Deferred):
-            return defer.fail(TypeError("Yield waitForDeferred(d), not d!"))
+            deferred.errback(TypeError("Yield waitForDeferred(d), not d!"))
+            return deferred
 
         if isinstance(result, defer.waitForDeferred):
             waiting = [True, None]
-- 
2.43.0


From abe6f1b0addc667be38d1e8b87e80db4bc90c2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:42 +0000
Subject: [PATCH 63/68] fix: the TimeoutMixin hotfix can be installed on Python
 3

---
 epsilon/hotfixes/timeoutmixin_calllater.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/epsilon/hotfixes/timeoutmixin_calllater.py b/epsilon/hotfixes/timeoutmixin_calllater.py
index 0dd9056..5203c34 100644
--- a/epsilon/hotfixes/timeoutmixin_calllater.py
+++ b/epsilon/hotfixes/timeoutmixin_calllater.py
@@ -55,6 +55,8 @@ def install():
     global TimeoutMixin
 
     from twisted.protocols import policies
-    policies.TimeoutMixin.__dict__ = TimeoutMixin.__dict__
-    policies.TimeoutMixin.__dict__['module'] = 'twisted.protocols.policies'
+    # The __dict__ of a class can not be replaced.
+    for name, value in list(TimeoutMixin.__dict__.items()):
+        if name not in ('__dict__', '__weakref__', '__module__'):
+            setattr(policies.TimeoutMixin, name, value)
     TimeoutMixin = policies.TimeoutMixin
-- 
2.43.0


From f34f37117c680c7aaa4d98daf8ad5099bca59d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:43 +0000
Subject: [PATCH 64/68] fix: the DelayedCall hotfix can be installed on Python
 3

---
 epsilon/hotfixes/delayedcall_seconds.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/epsilon/hotfixes/delayedcall_seconds.py b/epsilon/hotfixes/delayedcall_seconds.py
index 1d4a0e4..e7c0246 100644
--- a/epsilon/hotfixes/delayedcall_seconds.py
+++ b/epsilon/hotfixes/delayedcall_seconds.py
@@ -1,16 +1,17 @@
 
 import traceback
 
-from zope.interface import implements
+import six
+from zope.interface import implementer
 
 from twisted.persisted import styles
 from twisted.internet.interfaces import IDelayedCall
 from twisted.internet import error, base
 from twisted.python import reflect
 
+@implementer(IDelayedCall)
 class DelayedCall(styles.Ephemeral):
 
-    implements(IDelayedCall)
     # enable .debug to record creator call stack, and it will be logged if
     # an exception occurs while the function is being run
     debug = False
@@ -120,10 +121,10 @@ class DelayedCall(styles.Ephemeral):
         if self._str is not None:
             return self._str
         if hasattr(self, 'func'):
-            if hasattr(self.func, 'func_name'):
-                func = self.func.func_name
-                if hasattr(self.func, 'im_class'):
-                    func = self.func.im_class.__name__ + '.' + func
+            if hasattr(self.func, '__name__'):
+                func = self.func.__name__
+                if getattr(self.func, '__self__', None) is not None:
+                    func = self.func.__self__.__class__.__name__ + '.' + func
             else:
                 func = reflect.safe_repr(self.func)
         else:
@@ -142,7 +143,7 @@ class DelayedCall(styles.Ephemeral):
                 if self.kw:
                     L.append(", ")
             if self.kw:
-                L.append(", ".join(['%s=%s' % (k, reflect.safe_repr(v)) for (k, v) in self.kw.iteritems()]))
+                L.append(", ".join(['%s=%s' % (k, reflect.safe_repr(v)) for (k, v) in six.iteritems(self.kw)]))
             L.append(")")
 
         if self.debug:
@@ -155,6 +156,8 @@ class DelayedCall(styles.Ephemeral):
 def install():
     global DelayedCall
 
-    base.DelayedCall.__dict__ = DelayedCall.__dict__
-    base.DelayedCall.__dict__['__module__'] = 'twisted.internet.base'
+    # The __dict__ of a class can not be replaced.
+    for name, value in list(DelayedCall.__dict__.items()):
+        if name not in ('__dict__', '__weakref__', '__module__'):
+            setattr(base.DelayedCall, name, value)
     DelayedCall = base.DelayedCall
-- 
2.43.0


From bc395987541e07a3a1e8acbad09a78278e3f924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:45 +0000
Subject: [PATCH 65/68] fix: the assertWarns hotfix sees warnings on Python 3

---
 epsilon/hotfixes/trial_assertwarns.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/epsilon/hotfixes/trial_assertwarns.py b/epsilon/hotfixes/trial_assertwarns.py
index 998976e..b39b666 100644
--- a/epsilon/hotfixes/trial_assertwarns.py
+++ b/epsilon/hotfixes/trial_assertwarns.py
@@ -22,16 +22,11 @@ def failUnlessWarns(self, category, message, filename, f,
 
     @return: the result of the original function C{f}.
     """
-    warningsShown = []
-    def warnExplicit(*args):
-        warningsShown.append(args)
-
-    origExplicit = warnings.warn_explicit
-    try:
-        warnings.warn_explicit = warnExplicit
+    with warnings.catch_warnings(record=True) as recorded:
+        warnings.simplefilter('always')
         result = f(*args, **kwargs)
-    finally:
-        warnings.warn_explicit = origExplicit
+    warningsShown = [(str(w.message), w.category, w.filename, w.lineno)
+                     for w in recorded]
 
     if not warningsShown:
         self.fail("No warnings emitted")
-- 
2.43.0


From c46c0bb111074bdc8b0008fe0454029bc33e0bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 66/68] fix: measure a directory with links to directories or
 to themselves

---
 epsilon/scripts/benchmark.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 2154f36..dc69186 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -441,7 +441,12 @@ def getSize(p):
     @type p: L{twisted.python.filepath.FilePath}
     @return: The size, in bytes, of the given path and all its children.
     """
-    return sum(getOneSize(ch) for ch in p.walk())
+    size = getOneSize(p)
+    if p.isdir():
+        for ch in p.children():
+            # What a link leads to may well contain the link.
+            size += getOneSize(ch) if ch.islink() else getSize(ch)
+    return size
 
 
 def getOneSize(ch):
@@ -452,7 +457,7 @@ def getOneSize(ch):
     try:
         return ch.getsize()
     except OSError as e:
-        if e.errno == errno.ENOENT:
+        if e.errno in (errno.ENOENT, errno.ELOOP, errno.ENOTDIR):
             # XXX FilePath is broken
             if os.path.islink(ch.path):
                 return len(os.readlink(ch.path))
-- 
2.43.0


From 871e000e662c9cfd4437ca5e77886ed5fbea3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 67/68] fix: a benchmark which cannot be measured when it ends
 is reported as failed

---
 epsilon/scripts/benchmark.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index dc69186..8c24eac 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -278,7 +278,11 @@ class BenchmarkProcess(BasicProcess):
 
 
     def processEnded(self, reason):
-        self.overallChange.stop(self.path, self.disk, self.partition)
+        try:
+            self.overallChange.stop(self.path, self.disk, self.partition)
+        except Exception:
+            # For example because the child removed its directory.
+            reason = failure.Failure()
         return BasicProcess.processEnded(self, reason)
 
 
@@ -586,7 +590,8 @@ def main():
     try:
         bench(name, path, func)
     finally:
-        path.remove()
+        if os.path.exists(path.path):
+            path.remove()
 
 
 
-- 
2.43.0


From 589dcd556358e8561cfd0c8b84718d039706da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:52 +0000
Subject: [PATCH 68/68] fix: find the disk of a partition where disk names end
 with a number

---
 epsilon/scripts/benchmark.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 8c24eac..1a831a0 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -241,6 +241,13 @@ class BenchmarkProcess(BasicProcess):
         self.partition = discoverCurrentWorkingDevice().split('/')[-1]
         self.disk = self.partition.rstrip('0123456789')
 
+        # The names of some disks end with a number themselves; that of a
+        # partition of theirs is set apart with a p.
+        numbered = re.match(
+            r'((nvme\d+n|mmcblk|nbd|loop|md|dm-)\d+)(p\d+)?$', self.partition)
+        if numbered is not None:
+            self.disk = numbered.group(1)
+
         # Keep track of stats for the entire process run.
         self.overallChange = Change()
         self.overallChange.start(self.path, self.disk, self.partition)
-- 
2.43.0

