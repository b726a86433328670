From dbda4ddf3a35ab0a3d054680a53504ec71a87c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:59 +0000
Subject: [PATCH 01/39] fix: parse messages with an unknown WHO as generic
 messages

---
 pyown/messages/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 571f329..5188ad0 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -217,7 +217,11 @@ def parse_message(message: str) -> BaseMessage:
         # noinspection PyUnresolvedReferences
         match = subclass.pattern().match(message)
         if match is not None:
-            return subclass.parse(tags)
+            try:
+                return subclass.parse(tags)
+            except ValueError:
+                # The WHO is not one of the known ones
+                break
 
     # Default case
     return GenericMessage.parse(tags)
-- 
2.43.0


From b581a86f4094dec280e7f19cd3c3d9e0f578f206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:01 +0000
Subject: [PATCH 02/39] fix: match the generic message format in linear time

---
 pyown/messages/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 5188ad0..9a8ef3b 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -51,7 +51,7 @@ class BaseMessage(abc.ABC):
     separator: Final[str] = "*"  # Separator of the tags
 
     _regex: Pattern[str] = re.compile(
-        r"^\*(?:([0-9]*)(?:#[0-9]*)*\*?)+##$"
+        r"^\*[0-9#*]*##$"
     )  # Regex pattern used to match the message
 
     @abc.abstractmethod
-- 
2.43.0


From cf678569f230ce59d34b8bdfe4f3989f089b3ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:04 +0000
Subject: [PATCH 03/39] fix: make generic messages hashable

---
 pyown/messages/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 9a8ef3b..f925292 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -65,7 +65,7 @@ class BaseMessage(abc.ABC):
         return f"<{self.__class__.__name__}: {','.join([str(tag) for tag in self._tags])}>"
 
     def __hash__(self) -> int:
-        return hash((self._type, self._tags))
+        return hash((self._type, tuple(self._tags)))
 
     def __eq__(self, other) -> bool:
         if isinstance(other, self.__class__):
-- 
2.43.0


From 84deb2cf74e35e587b49925f047043ec73938803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:06 +0000
Subject: [PATCH 04/39] fix: reject wrong tags when parsing ACK and NACK

---
 pyown/messages/ack.py  | 2 +-
 pyown/messages/nack.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/messages/ack.py b/pyown/messages/ack.py
index 6b687f6..e073da5 100644
--- a/pyown/messages/ack.py
+++ b/pyown/messages/ack.py
@@ -40,7 +40,7 @@ class ACK(BaseMessage):
         In this case, it only checks if the tags are correct.
         """
         # the first tag bust be #
-        if tags[0] != "#" and tags[1] != "1":
+        if tags[0] != "#" or tags[1] != "1":
             raise InvalidMessage(message="Invalid ACK message")
 
         return cls()
diff --git a/pyown/messages/nack.py b/pyown/messages/nack.py
index 959c082..c2261bc 100644
--- a/pyown/messages/nack.py
+++ b/pyown/messages/nack.py
@@ -40,7 +40,7 @@ class NACK(BaseMessage):
         In this case, it only checks if the tags are correct.
         """
         # the first tag bust be #
-        if tags[0] != "#" and tags[1] != "0":
+        if tags[0] != "#" or tags[1] != "0":
             raise InvalidMessage(tags)
 
         return cls()
-- 
2.43.0


From 981bf17f8b6dd623cc84457078e37bf4b7f698cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:09 +0000
Subject: [PATCH 05/39] fix: recognise dimension requests and writings with
 parameters

---
 pyown/messages/dimension.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyown/messages/dimension.py b/pyown/messages/dimension.py
index d25727d..de73b52 100644
--- a/pyown/messages/dimension.py
+++ b/pyown/messages/dimension.py
@@ -20,7 +20,9 @@ class DimensionRequest(BaseMessage):
     _type: MessageType = MessageType.DIMENSION_REQUEST
     _tags: tuple[Who, Where, Dimension]
 
-    _regex: Pattern[str] = re.compile(r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]*##$")
+    _regex: Pattern[str] = re.compile(
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*(?:[0-9]+(?:#[0-9]*)*)?##$"
+    )
 
     def __init__(self, tags: tuple[Who, Where, Dimension]):
         self._tags = tags
@@ -61,7 +63,7 @@ class DimensionWriting(BaseMessage):
     _tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]
 
     _regex: Pattern[str] = re.compile(
-        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]*(?:#[0-9]*)*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
     )
 
     def __init__(self, tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]):
-- 
2.43.0


From 0d24b2e1ad3bf3486cbb0eb0f8a3555edb28cb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:11 +0000
Subject: [PATCH 06/39] fix: do not append a separator to dimension writings
 without values

---
 pyown/messages/dimension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyown/messages/dimension.py b/pyown/messages/dimension.py
index de73b52..703e477 100644
--- a/pyown/messages/dimension.py
+++ b/pyown/messages/dimension.py
@@ -92,7 +92,8 @@ class DimensionWriting(BaseMessage):
     @property
     def message(self) -> str:
         """The string representation of the message as sent on the bus."""
-        return f"*#{self.who}*{self.where}*#{self.dimension}*{'*'.join([str(value) for value in self.values])}##"
+        values = "".join([f"*{value}" for value in self.values])
+        return f"*#{self.who}*{self.where}*#{self.dimension}{values}##"
 
     @classmethod
     def parse(cls, tags: list[str]) -> Self:
-- 
2.43.0


From 5adf028504ba1111fc47c0e6bb8c630bfbbfab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:29 +0000
Subject: [PATCH 07/39] fix: reassemble messages split between packets

---
 pyown/protocol/protocol.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 9ab0e81..19ba42f 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -1,9 +1,10 @@
 import asyncio
 import logging
+import re
 from asyncio import BaseTransport, Future, Protocol, Queue, Transport
 from threading import Lock
 
-from ..exceptions import ParseError
+from ..exceptions import InvalidMessage, ParseError
 from ..messages import BaseMessage, parse_message
 
 __all__ = [
@@ -40,6 +41,9 @@ class OWNProtocol(Protocol):
         # The queue was chosen because it supports both synchronous and asynchronous functions
         self._messages_queue: Queue[BaseMessage] = asyncio.Queue()
 
+        # Beginning of a message whose end has not been received yet
+        self._buffer: str = ""
+
         self._lock = Lock()
 
     def connection_made(self, transport: BaseTransport):
@@ -72,27 +76,32 @@ class OWNProtocol(Protocol):
         """
         # In OpenWebNet, the message is always written with ascii characters
         try:
-            text = data.decode("ascii").strip()
+            text = self._buffer + data.decode("ascii")
         except UnicodeDecodeError as e:
             log.warning(f"Received data not ascii: {data.hex()}")
             raise e
 
-        # Sometimes multiple messages can be sent in the same packet
+        # Sometimes multiple messages can be sent in the same packet,
+        # or a message can be split between multiple packets
+        *frames, rest = text.split("##")
+        self._buffer = ""
+
         try:
-            messages = [parse_message(msg + "##") for msg in text.split("##") if msg]
+            for frame in frames:
+                if frame.strip():
+                    message = parse_message(frame + "##")
+                    log.debug(f"Received message: {message}")
+                    self._messages_queue.put_nowait(message)
+
+            rest = rest.lstrip()
+            if rest and re.fullmatch(r"\*[0-9#*]*\s*", rest) is None:
+                raise InvalidMessage(rest)
         except ParseError as e:
             log.warning(f"Received invalid message: {e}")
             raise e
 
-        # If there are no messages, return
-        if not messages:
-            return
-
-        log.debug(f"Received messages: {messages}")
-
-        # Call the on_message_received future
-        for msg in messages:
-            self._messages_queue.put_nowait(msg)
+        # Keep the beginning of the message until its end is received
+        self._buffer = rest
 
     def pause_writing(self):
         """Called when the transport's buffer goes over the high-water mark."""
-- 
2.43.0


From 6675b75697e861d57b69b93ebc7b5f07b2fc2b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:42 +0000
Subject: [PATCH 08/39] fix: reject digit strings that do not encode a hex
 string

---
 pyown/auth/hmac.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyown/auth/hmac.py b/pyown/auth/hmac.py
index 1dc0b96..f550780 100644
--- a/pyown/auth/hmac.py
+++ b/pyown/auth/hmac.py
@@ -158,6 +158,8 @@ def digits_to_hex(
     """
     out = ""
     for i in range(0, len(digits_string), 2):
-        value = int(digits_string[i]) * 10 + int(digits_string[i + 1])
+        value = int(digits_string[i : i + 2])
+        if len(digits_string[i : i + 2]) != 2 or value > 15:
+            raise ValueError("Invalid digit string")
         out += hex(value)[2:]
     return out
-- 
2.43.0


From 7fa6a188de70197f6859c5ac0a2f51d3871be219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:43 +0000
Subject: [PATCH 09/39] fix: compute the hmac digests as in the specification

---
 pyown/auth/hmac.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/pyown/auth/hmac.py b/pyown/auth/hmac.py
index f550780..32556cb 100644
--- a/pyown/auth/hmac.py
+++ b/pyown/auth/hmac.py
@@ -1,5 +1,5 @@
 from hashlib import sha1, sha256
-from hmac import HMAC, compare_digest
+from hmac import compare_digest
 from secrets import token_bytes
 
 from .enum import AuthAlgorithm
@@ -45,13 +45,8 @@ def client_hmac(
     kab = hash_function(password.encode()).hexdigest()
     hmac_message = f"{server_key}{client_key}{client_identity}{server_identity}{kab}"
 
-    hmac = HMAC(
-        key=server_key.encode(),
-        msg=hmac_message.encode(),
-        digestmod=hash_function,
-    )
-
-    return hmac.digest()
+    # In the specification HMAC is just the hash function
+    return hash_function(hmac_message.encode()).digest()
 
 
 def server_hmac(
@@ -79,15 +74,10 @@ def server_hmac(
         raise ValueError("Invalid hash algorithm")
 
     kab = hash_function(password.encode()).hexdigest()
-    hmac_message = f"{client_key}{server_key}{kab}"
-
-    hmac = HMAC(
-        key=server_key.encode(),
-        msg=hmac_message.encode(),
-        digestmod=hash_function,
-    )
+    hmac_message = f"{server_key}{client_key}{kab}"
 
-    return hmac.digest()
+    # In the specification HMAC is just the hash function
+    return hash_function(hmac_message.encode()).digest()
 
 
 def compare_hmac(
-- 
2.43.0


From 1691a1b784bec91580758de3ec6239a1fd94d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:45 +0000
Subject: [PATCH 10/39] fix: follow the specification in the hmac handshake

---
 pyown/client/base.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 2d8b0cf..1e9e645 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -9,6 +9,7 @@ from ..auth.hmac import (
     client_hmac,
     compare_hmac,
     create_key,
+    digits_to_hex,
     hex_to_digits,
     server_hmac,
 )
@@ -170,7 +171,7 @@ class BaseClient(ABC):
         # Send an ACK to accept the algorithm and wait for the server key
         await self.send_message(ACK(), force=True)
         resp = await self.read_message()
-        server_key = resp.tags[0]
+        server_key = self._decode_hmac_string(resp)
 
         # Generate the client key
         client_key = create_key(hash_algorithm)
@@ -191,7 +192,7 @@ class BaseClient(ABC):
 
         # Send the client authentication string
         await self.send_message(
-            GenericMessage([hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
+            GenericMessage(["#" + hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
             force=True,
         )
         resp = await self.read_message()
@@ -200,11 +201,26 @@ class BaseClient(ABC):
             raise InvalidAuthentication("Invalid password")
 
         # Check the server authentication string with the one generated
-        if not compare_hmac(server_auth, bytes.fromhex(hex_to_digits(resp.tags[0]))):
+        if not compare_hmac(server_auth.hex().encode(), self._decode_hmac_string(resp).encode()):
             raise InvalidAuthentication("Invalid password")
         else:
             await self.send_message(ACK(), force=True)
 
+    @staticmethod
+    def _decode_hmac_string(message: BaseMessage) -> str:
+        """Decodes the hex string sent by the server in a `*#digits##` message.
+
+        Args:
+            message (BaseMessage): The message sent by the server
+
+        Returns:
+            str: The hex string
+        """
+        try:
+            return digits_to_hex(message.tags[0].removeprefix("#"))
+        except ValueError:
+            raise InvalidAuthentication("Invalid hmac message")
+
     async def send_message(self, message: BaseMessage, *, force: bool = False) -> None:
         """Sends a message to the server.
 
-- 
2.43.0


From b7c264e279a533101a5532683337cfc76314fe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:06 +0000
Subject: [PATCH 11/39] fix: allow a client to be started again after it was
 closed

---
 pyown/client/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 1e9e645..0888fb6 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -86,6 +86,10 @@ class BaseClient(ABC):
             TimeoutError: if the server does not respond
             InvalidSession: if the server requires an unknown authentication algorithm
         """
+        # A new connection needs new futures, the ones of a previous connection are already set
+        self._on_connection_start = self._loop.create_future()
+        self._on_connection_end = self._loop.create_future()
+
         try:
             self._transport, self._protocol = await self._loop.create_connection(
                 lambda: OWNProtocol(
-- 
2.43.0


From ae138cc8fcaac2fc54bfc221d131a99a05ffdd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:09 +0000
Subject: [PATCH 12/39] fix: end the client loop when the connection is lost or
 closed

---
 pyown/client/client.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index aa5aafd..8ca9cdf 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -111,14 +111,22 @@ class Client(BaseClient):
         if client is None:
             client = self
 
+        transport, connection_end = self._transport, self._on_connection_end
+
         # loop until the connection is dropped or closed
-        while not self._transport.is_closing():
+        while not transport.is_closing():
+            # by putting timeout as None, it will wait indefinitely for a message
+            read = asyncio.ensure_future(self.read_message(timeout=None))
             try:
-                # by putting timeout as None, it will wait indefinitely for a message
-                message = await self.read_message(timeout=None)
+                await asyncio.wait({read, connection_end}, return_when=asyncio.FIRST_COMPLETED)
+                if not read.done():
+                    break
+                message = read.result()
             except (ParseError, InvalidMessage, InvalidTag) as e:
                 log.warning("Error reading message: %s", e)
                 continue
+            finally:
+                read.cancel()
 
             # ignore status messages
             if message.type == MessageType.ACK or message.type == MessageType.NACK:
-- 
2.43.0


From 66910c779ea620ee3cdb38d18fc897e540a501d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:11 +0000
Subject: [PATCH 13/39] fix: keep the client loop running when an item can not
 be created

---
 pyown/client/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index 8ca9cdf..30fa152 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -144,7 +144,7 @@ class Client(BaseClient):
             try:
                 # get the item if already declared, otherwise instantiate it
                 item = self.get_item(who, where, client=client)
-            except KeyError:
+            except (KeyError, InvalidTag):
                 log.info(f"Item type not supported, WHO={who}, WHERE={where}")
                 continue
 
-- 
2.43.0


From 9d21fd2f9b6d8bb8d336330a81ecf24a9851037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 14/39] fix: dispatch the events of the video door entry items

---
 pyown/items/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyown/items/utils.py b/pyown/items/utils.py
index 646c4e7..e2ac540 100644
--- a/pyown/items/utils.py
+++ b/pyown/items/utils.py
@@ -3,6 +3,7 @@ from typing import Final, Type
 from ..tags import Who
 from .automation import Automation
 from .base import BaseItem
+from .camera import Camera
 from .energy.energy import EnergyManagement
 from .gateway import Gateway
 from .lighting import Light
@@ -12,6 +13,7 @@ __all__ = ["ITEM_TYPES"]
 ITEM_TYPES: Final[dict[Who, Type[BaseItem]]] = {
     Who.LIGHTING: Light,
     Who.AUTOMATION: Automation,
+    Who.VIDEO_DOOR_ENTRY: Camera,
     Who.GATEWAY: Gateway,
     Who.ENERGY_MANAGEMENT: EnergyManagement,
 }
-- 
2.43.0


From a268564028a86cedf90c215cd267f6098d61886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:10 +0000
Subject: [PATCH 15/39] fix: allow parameters in the light commands

---
 pyown/items/lighting/base.py   |  4 ++++
 pyown/items/lighting/dimmer.py | 10 +++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 5a84f27..32b4129 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -113,6 +113,10 @@ class WhatLight(What, StrEnum):
 
     COMMAND_TRANSLATION = "1000"
 
+    def with_parameter(self, parameter: str | int) -> What:
+        """Returns the tag with the specified parameter."""
+        return What(f"{self}#{parameter}")
+
 
 class BaseLight(BaseItem, ABC):
     """Base class for all light items."""
diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 1c698f1..5a267bf 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -1,6 +1,6 @@
 from typing import AsyncIterator, Callable, Coroutine, Self
 
-from ...tags import Dimension, Value, Where
+from ...tags import Dimension, Value, What, Where
 from .base import BaseLight, LightEvents, WhatLight
 
 __all__ = [
@@ -20,7 +20,7 @@ class Dimmer(BaseLight):
         if speed is not None and (speed < 0 or speed > 255):
             raise ValueError("Invalid speed value")
 
-        what = WhatLight.ON
+        what: What = WhatLight.ON
         # I do not own a dimmer, so I cannot test this.
         # Also, the documentation is not clear on what is the range of the speed parameter
         if speed is not None:
@@ -36,7 +36,7 @@ class Dimmer(BaseLight):
         if speed is not None and (speed < 0 or speed > 255):
             raise ValueError("Invalid speed value")
 
-        what = WhatLight.OFF
+        what: What = WhatLight.OFF
 
         if speed is not None:
             what = what.with_parameter(speed)
@@ -88,7 +88,7 @@ class Dimmer(BaseLight):
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
 
-        what = WhatLight.UP_1_PERCENT
+        what: What = WhatLight.UP_1_PERCENT
 
         if value is not None:
             what = what.with_parameter(value)
@@ -107,7 +107,7 @@ class Dimmer(BaseLight):
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
 
-        what = WhatLight.DOWN_1_PERCENT
+        what: What = WhatLight.DOWN_1_PERCENT
 
         if value is not None:
             what = what.with_parameter(value)
-- 
2.43.0


From 1cffc122530f927edfeabd2e03cc7ab4215d8b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:12 +0000
Subject: [PATCH 16/39] fix: send the speed of a percentage change as its
 second parameter

---
 pyown/items/lighting/dimmer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 5a267bf..450d15c 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -87,6 +87,10 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
+        if value is None and speed is not None:
+            value = 1
 
         what: What = WhatLight.UP_1_PERCENT
 
@@ -106,6 +110,10 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
+        if value is None and speed is not None:
+            value = 1
 
         what: What = WhatLight.DOWN_1_PERCENT
 
-- 
2.43.0


From b3a8c36478e87a2c57256cec938f5ca8d06703d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:14 +0000
Subject: [PATCH 17/39] fix: use the right dimensions for white temperature and
 working time

---
 pyown/items/lighting/base.py   | 2 +-
 pyown/items/lighting/dimmer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 32b4129..a056f24 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -204,7 +204,7 @@ class BaseLight(BaseItem, ABC):
             The time in hours the light has been on.
                 The value is in the range [1-100000].
         """
-        async for message in self.send_dimension_request("3"):
+        async for message in self.send_dimension_request("8"):
             yield message.where, int(message.values[0].tag)
 
     @classmethod
diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 450d15c..52d285c 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -171,7 +171,7 @@ class Dimmer(BaseLight):
         if temperature < 1 or temperature > 65534:
             raise ValueError("Invalid temperature value")
 
-        await self.send_dimension_writing("13", Value(temperature))
+        await self.send_dimension_writing("14", Value(temperature))
 
     async def request_current_brightness_speed(
         self,
-- 
2.43.0


From bd6394a0e7663abd5de2627877729369c1c36c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:17 +0000
Subject: [PATCH 18/39] fix: dispatch the light events by their right dimension

---
 pyown/items/lighting/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index a056f24..7ad3725 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -237,18 +237,18 @@ class BaseLight(BaseItem, ABC):
         if isinstance(message, DimensionResponse):
             if message.dimension.tag == "1":
                 tasks += cls._create_tasks(
-                    cls._event_callbacks.get(LightEvents.LIGHT_TEMPORIZATION, []),
+                    cls._event_callbacks.get(LightEvents.LUMINOSITY_CHANGE, []),
                     item,
                     int(message.values[0].tag),
                     int(message.values[1].tag),
-                    int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "8":
+            elif message.dimension.tag == "2":
                 tasks += cls._create_tasks(
-                    cls._event_callbacks.get(LightEvents.LUMINOSITY_CHANGE, []),
+                    cls._event_callbacks.get(LightEvents.LIGHT_TEMPORIZATION, []),
                     item,
                     int(message.values[0].tag),
                     int(message.values[1].tag),
+                    int(message.values[2].tag),
                 )
             elif message.dimension.tag == "12":
                 tasks += cls._create_tasks(
@@ -258,7 +258,7 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[1].tag),
                     int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "13":
+            elif message.dimension.tag == "14":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.WHITE_TEMP_CHANGE, []),
                     item,
-- 
2.43.0


From c51dbc4f4b7814620990be15f3d1d192ab9cd7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:19 +0000
Subject: [PATCH 19/39] fix: report dimmed, timed and blinking lights as on

---
 pyown/items/lighting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 7ad3725..9bd4740 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -268,7 +268,7 @@ class BaseLight(BaseItem, ABC):
             tasks += cls._create_tasks(
                 cls._event_callbacks.get(LightEvents.STATUS_CHANGE, []),
                 item,
-                message.what == WhatLight.ON,
+                message.what.tag != WhatLight.OFF,
             )
         else:
             raise InvalidMessage(str(message))
-- 
2.43.0


From de5c7b8ae5b99755898ffc865265583874b93e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:51 +0000
Subject: [PATCH 20/39] fix: raise InvalidTag for an actuator address without
 its parameter

---
 pyown/items/energy/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 46ee0f6..744e423 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -59,7 +59,7 @@ class EnergyManagement(BaseItem):
             return TypeEnergy.POWER_METER
         elif (
             self.where.string.startswith("7")
-            and self.where.parameters[0] == "0"
+            and self.where.parameters == ["0"]
             and self.where.tag[1:].isnumeric()
         ):
             return TypeEnergy.ACTUATOR
-- 
2.43.0


From bf51a2501454061648171e61379539c25bf47b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:54 +0000
Subject: [PATCH 21/39] fix: send the month before the day when asking for the
 daily totalizers

---
 pyown/items/energy/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 744e423..ee99ce3 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -81,7 +81,7 @@ class EnergyManagement(BaseItem):
             month = datetime.now().month
 
         await self.send_normal_message(
-            WhatEnergy.SEND_DAILY_REPORT.with_parameter(day).with_parameter(month)
+            WhatEnergy.SEND_DAILY_REPORT.with_parameter(month).with_parameter(day)
         )
 
     async def start_sending_monthly_average_hourly(self, month: int | None):
-- 
2.43.0


From e41dca2363fc282eb772e57cbc9ea95b3827f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:56 +0000
Subject: [PATCH 22/39] fix: read the actuator info from its six values

---
 pyown/items/energy/energy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index ee99ce3..b58ce3d 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -302,12 +302,12 @@ class EnergyManagement(BaseItem):
             message = await self._single_dim_req(DimensionEnergy.ACTUATORS_INFO)
 
         return ActuatorStatus(
-            disabled=bool(int(message.values[0].string[0])),
-            forcing=bool(int(message.values[0].string[1])),
-            threshold=bool(int(message.values[0].string[2])),
-            protection=bool(int(message.values[0].string[3])),
-            phase=bool(int(message.values[0].string[4])),
-            advanced=not bool(int(message.values[0].string[5]) - 1),
+            disabled=bool(int(message.values[0].string)),
+            forcing=bool(int(message.values[1].string)),
+            threshold=bool(int(message.values[2].string)),
+            protection=bool(int(message.values[3].string)),
+            phase=bool(int(message.values[4].string)),
+            advanced=int(message.values[5].string) == 1,
         )
 
     async def get_totalizers(
-- 
2.43.0


From e7e95799796c58c59b9aa27e86f93a1d8ad5ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:58 +0000
Subject: [PATCH 23/39] fix: dispatch the energy events that have parameters

---
 pyown/items/energy/energy.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index b58ce3d..431cfaf 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -553,7 +553,8 @@ class EnergyManagement(BaseItem):
             raise InvalidMessage("The item is not an EnergyManagement instance.")
 
         # TODO: Refactor this
-        dim = DimensionEnergy(message.dimension.string)
+        dim = DimensionEnergy(message.dimension.tag)
+        parameters = message.dimension.parameters
 
         tasks = []
         callbacks = cls._event_callbacks.get(dim, [])
@@ -561,22 +562,23 @@ class EnergyManagement(BaseItem):
         # noinspection PyUnusedLocal
         args: tuple[Any, ...]
         if dim.tag == DimensionEnergy.DAILY_TOTALIZERS_HOURLY_16BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
+            day = int(parameters[1])
             hour = int(message.values[0].string)
             val = float(message.values[1].string)
-            args = (item, month, hour, val)
+            args = (item, day, month, hour, val)
         elif dim.tag == DimensionEnergy.MONTHLY_AVERAGE_HOURLY_16BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
             hour = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, hour, val)
         elif dim.tag == DimensionEnergy.MONTHLY_TOTALIZERS_CURRENT_YEAR_32BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
             day = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, day, val)
         elif dim.tag == DimensionEnergy.MONTHLY_TOTALIZERS_LAST_YEAR_32BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
             day = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, day, val)
@@ -607,8 +609,8 @@ class EnergyManagement(BaseItem):
             energy = float(message.values[0].string)
             args = (item, energy)
         elif dim.tag == DimensionEnergy.ENERGY_UNIT_PER_MONTH:
-            month = int(dim.parameters[1])
-            year = int(dim.parameters[0])
+            month = int(parameters[1])
+            year = int(parameters[0])
             energy = float(message.values[0].string)
             args = (item, month, year, energy)
         elif dim.tag == DimensionEnergy.PARTIAL_TOTALIZER_CURRENT_MONTH:
@@ -618,8 +620,9 @@ class EnergyManagement(BaseItem):
             energy = float(message.values[0].string)
             args = (item, energy)
         elif dim.tag == DimensionEnergy.TOTALIZERS:
-            args = await item.get_totalizers(int(dim.parameters[0]), message=message)
-            args = (item, *args)
+            tot_n = int(parameters[0])
+            args = await item.get_totalizers(tot_n, message=message)
+            args = (item, tot_n, *args)
         elif dim.tag == DimensionEnergy.DIFFERENTIAL_CURRENT_LEVEL:
             level = int(message.values[0].string)
             args = (item, level)
-- 
2.43.0


From 0958af4aa67d8b7eaaf5c5515630bb3f883ddc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:01 +0000
Subject: [PATCH 24/39] fix: read the Stop&Go status mask from its last digit

---
 pyown/items/energy/energy.py  | 28 +++++++++++++++-------------
 pyown/items/energy/stop_go.py |  6 ++----
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 431cfaf..4790d63 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -583,20 +583,22 @@ class EnergyManagement(BaseItem):
             val = float(message.values[1].string)
             args = (item, month, day, val)
         elif dim.tag == DimensionEnergy.STATUS_STOP_GO_GENERAL:
+            # 13-bit mask, the last digit is the first bit
+            mask = int(message.values[0].string, 2)
             status = StopGoStatus(
-                open=bool(int(message.values[0].string[0])),
-                failure=bool(int(message.values[0].string[1])),
-                block=bool(int(message.values[0].string[2])),
-                open_cc=bool(int(message.values[0].string[3])),
-                open_ground_fault=bool(int(message.values[0].string[4])),
-                open_vmax=bool(int(message.values[0].string[5])),
-                self_test_off=bool(int(message.values[0].string[6])),
-                auto_reset_off=bool(int(message.values[0].string[7])),
-                check_off=bool(int(message.values[0].string[8])),
-                waiting_closing=bool(int(message.values[0].string[9])),
-                first_24h_open=bool(int(message.values[0].string[10])),
-                power_fail_down=bool(int(message.values[0].string[11])),
-                power_fail_up=bool(int(message.values[0].string[12])),
+                open=bool(mask & 0x1),
+                failure=bool(mask & 0x2),
+                block=bool(mask & 0x4),
+                open_cc=bool(mask & 0x8),
+                open_ground_fault=bool(mask & 0x10),
+                open_vmax=bool(mask & 0x20),
+                self_test_off=bool(mask & 0x40),
+                auto_reset_off=bool(mask & 0x80),
+                check_off=bool(mask & 0x100),
+                waiting_closing=bool(mask & 0x200),
+                first_24h_open=bool(mask & 0x400),
+                power_fail_down=bool(mask & 0x800),
+                power_fail_up=bool(mask & 0x1000),
             )
             args = (item, status)
         elif dim.tag == DimensionEnergy.ACTUATORS_INFO:
diff --git a/pyown/items/energy/stop_go.py b/pyown/items/energy/stop_go.py
index aadc55d..1dc1ded 100644
--- a/pyown/items/energy/stop_go.py
+++ b/pyown/items/energy/stop_go.py
@@ -69,10 +69,8 @@ class StopGo(EnergyManagement):
                 raise InvalidMessage(msg.message)
 
             dim = msg.dimension
-            val = int(msg.values[0].string)
-
-            if val is None:
-                raise InvalidMessage(msg.message)
+            # all the values are written in binary
+            val = int(msg.values[0].string, 2)
 
             match dim:
                 case DimensionEnergy.STATUS_STOP_GO_GENERAL:
-- 
2.43.0


From 462debd0ece9d726d865b7f51b186784c3af0d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:03 +0000
Subject: [PATCH 25/39] fix: encode the timezone of the gateway with its sign
 and two digits

---
 pyown/items/gateway/gateway.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index aef68ef..2cfa3f7 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -127,9 +127,9 @@ class Gateway(BaseItem):
             raise ValueError("The timezone must be set in the datetime object.")
 
         sign = "0" if tz >= datetime.timedelta(0) else "1"
-        hours = abs(tz.seconds) // 3600
+        hours = abs(tz) // datetime.timedelta(hours=1)
 
-        t = Value(f"{sign}{hours:03d}")
+        t = Value(f"{sign}{hours:02d}")
         return t
 
     async def get_time(self, *, message: EventMessage = None) -> datetime.time:
-- 
2.43.0


From 4ecc437714171ce6271a19e05890dcf6285c0a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:06 +0000
Subject: [PATCH 26/39] fix: send the day of the week when setting the date and
 time

---
 pyown/items/gateway/gateway.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index 2cfa3f7..df52f4c 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -396,11 +396,13 @@ class Gateway(BaseItem):
         m = Value(f"{bus_time.minute:02d}")
         s = Value(f"{bus_time.second:02d}")
 
+        # day of the week, 00 is Sunday
+        w = Value(f"{bus_time.isoweekday() % 7:02d}")
         d = Value(f"{bus_time.day:02d}")
         mo = Value(f"{bus_time.month:02d}")
         y = Value(f"{bus_time.year}")
 
-        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, d, mo, y)
+        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, w, d, mo, y)
 
     async def get_kernel_version(self, *, message: EventMessage = None) -> str:
         """Requests the linux kernel version of the gateway.
-- 
2.43.0


From aadfc547fe2dd668355951dfed8561bd1487f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:08 +0000
Subject: [PATCH 27/39] fix: convert the mac address from decimal to
 hexadecimal

---
 pyown/items/gateway/gateway.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index df52f4c..f0be06b 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -276,8 +276,8 @@ class Gateway(BaseItem):
 
         oct1, oct2, oct3, oct4, oct5, oct6 = resp.values
 
-        mac = f"{oct1.string}:{oct2.string}:{oct3.string}:{oct4.string}:{oct5.string}:{oct6.string}"
-        return mac
+        octets = (oct1, oct2, oct3, oct4, oct5, oct6)
+        return ":".join(f"{int(octet.string):02X}" for octet in octets)
 
     async def get_netinfo(self) -> ipaddress.IPv4Network:
         """Combines the net mask and the IP address to get the network info.
-- 
2.43.0


From 038c84a8c79fe96627af4f8d3c084bbad734b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:11 +0000
Subject: [PATCH 28/39] fix: pass the gateway strings to the callbacks as a
 single argument

---
 pyown/items/gateway/gateway.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index f0be06b..7923c1d 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -3,7 +3,7 @@ import ipaddress
 import logging
 from asyncio import Task
 from enum import StrEnum
-from typing import Any, Sequence
+from typing import Any
 
 from ...client import BaseClient
 from ...exceptions import InvalidMessage
@@ -508,10 +508,7 @@ class Gateway(BaseItem):
                 case _:
                     return []
 
-            if isinstance(args, Sequence):
-                tasks += cls._create_tasks(callbacks, item, *args)
-            else:
-                tasks += cls._create_tasks(callbacks, item, args)
+            tasks += cls._create_tasks(callbacks, item, args)
         else:
             raise InvalidMessage("The message is not a DimensionResponse message.")
 
-- 
2.43.0


From e6fe8e0b4ef303fd903b489ca49fde999bc9a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:08 +0000
Subject: [PATCH 29/39] fix: dispatch the events received before the connection
 was lost

---
 pyown/client/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index 30fa152..30f66a0 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -113,8 +113,8 @@ class Client(BaseClient):
 
         transport, connection_end = self._transport, self._on_connection_end
 
-        # loop until the connection is dropped or closed
-        while not transport.is_closing():
+        # loop until the client is closed, or the connection is dropped and its messages are all dispatched
+        while self._transport is transport:
             # by putting timeout as None, it will wait indefinitely for a message
             read = asyncio.ensure_future(self.read_message(timeout=None))
             try:
-- 
2.43.0


From 5695d02b7368a20ec38e91e3b6aca9e373f88648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:35 +0000
Subject: [PATCH 30/39] fix: close the connection when the handshake fails

---
 pyown/client/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 0888fb6..6c00efe 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -86,6 +86,15 @@ class BaseClient(ABC):
             TimeoutError: if the server does not respond
             InvalidSession: if the server requires an unknown authentication algorithm
         """
+        try:
+            await self._connect()
+        except BaseException:
+            # Without a successful handshake there is no session, don't leave the connection open
+            await self.close()
+            raise
+
+    async def _connect(self) -> None:
+        """Creates the connection with the gateway and does the initial handshake."""
         # A new connection needs new futures, the ones of a previous connection are already set
         self._on_connection_start = self._loop.create_future()
         self._on_connection_end = self._loop.create_future()
-- 
2.43.0


From 96129543e3dbfb40e3c6c6a10d06900941fb427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:15 +0000
Subject: [PATCH 31/39] fix: give every subsystem its description

Who.name raised KeyError for the subsystems missing from the table (6, 8, 14, 24, 1018).
---
 pyown/tags/who.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyown/tags/who.py b/pyown/tags/who.py
index 0c26fb0..7d7eefa 100644
--- a/pyown/tags/who.py
+++ b/pyown/tags/who.py
@@ -81,15 +81,20 @@ who_map: Final[dict[Who, str]] = {
     Who.LOAD_CONTROL: "Load control",
     Who.THERMOREGULATION: "Thermoregulation",
     Who.BURGLAR_ALARM: "Burglar alarm",
+    Who.DOOR_ENTRY_SYSTEM: "Door entry system",
     Who.VIDEO_DOOR_ENTRY: "Video door entry",
+    Who.AUXILIARY: "Auxiliary",
     Who.GATEWAY: "Gateway management",
+    Who.ACTUATORS_LOCKS: "Actuators and locks",
     Who.CEN_1: "CEN",
     Who.SOUND_DIFFUSION_1: "Sound diffusion 1",
     Who.MH200N_SCENE: "MH200N Scene",
     Who.ENERGY_MANAGEMENT: "Energy management",
     Who.SOUND_DIFFUSION_2: "Sound diffusion 2",
+    Who.LIGHTING_MANAGEMENT: "Lighting management",
     Who.CEN_2: "CEN plus / scenarios plus / dry contacts",
     Who.AUTOMATION_DIAGNOSTICS: "Automation diagnostics",
     Who.THERMOREGULATION_DIAGNOSTICS: "Thermoregulation diagnostics",
     Who.DEVICE_DIAGNOSTICS: "Device diagnostics",
+    Who.ENERGY_DIAGNOSTICS: "Energy diagnostics",
 }
-- 
2.43.0


From bebd1cbac0f80cd51bb1d3d5c5a3c1ff9e6c6d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:48 +0000
Subject: [PATCH 32/39] fix: digits_to_hex rejects signs, blanks and digits of
 other scripts

int() of a pair accepts a sign or a blank, so "-7" and " 7" were decoded.
---
 pyown/auth/hmac.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyown/auth/hmac.py b/pyown/auth/hmac.py
index 32556cb..1508447 100644
--- a/pyown/auth/hmac.py
+++ b/pyown/auth/hmac.py
@@ -146,10 +146,13 @@ def digits_to_hex(
     Returns:
         str: the hex string
     """
+    if len(digits_string) % 2 != 0 or not digits_string.isascii():
+        raise ValueError("Invalid digit string")
+
     out = ""
     for i in range(0, len(digits_string), 2):
-        value = int(digits_string[i : i + 2])
-        if len(digits_string[i : i + 2]) != 2 or value > 15:
+        value = int(digits_string[i]) * 10 + int(digits_string[i + 1])
+        if value > 15:
             raise ValueError("Invalid digit string")
         out += hex(value)[2:]
     return out
-- 
2.43.0


From a697b0d11b7fb5206fe85160320cdefe0b30eebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:48 +0000
Subject: [PATCH 33/39] fix: parameters can be added to automation, camera and
 gateway commands

with_parameter() tried to build another member of the enumeration and raised ValueError.
---
 pyown/items/automation/automation.py | 4 ++++
 pyown/items/camera/camera.py         | 4 ++++
 pyown/items/gateway/gateway.py       | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/pyown/items/automation/automation.py b/pyown/items/automation/automation.py
index 4e0c6f6..936a7a0 100644
--- a/pyown/items/automation/automation.py
+++ b/pyown/items/automation/automation.py
@@ -44,6 +44,10 @@ class WhatAutomation(What, StrEnum):
     UP = "1"
     DOWN = "2"
 
+    def with_parameter(self, parameter: str | int) -> What:
+        """Returns the tag with the specified parameter."""
+        return What(f"{self}#{parameter}")
+
 
 class Automation(BaseItem):
     """Automation items are usually used to control blinds, shutters, etc..."""
diff --git a/pyown/items/camera/camera.py b/pyown/items/camera/camera.py
index feb495d..7da34e3 100644
--- a/pyown/items/camera/camera.py
+++ b/pyown/items/camera/camera.py
@@ -99,6 +99,10 @@ class WhatCamera(What, StrEnum):
     DISPLAY_DIAL_43 = "343"
     DISPLAY_DIAL_44 = "344"
 
+    def with_parameter(self, parameter: str | int) -> What:
+        """Returns the tag with the specified parameter."""
+        return What(f"{self}#{parameter}")
+
 
 dial_map: Final[dict[tuple[int, int], WhatCamera]] = {
     (1, 1): WhatCamera.DISPLAY_DIAL_11,
diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index 7923c1d..71b6179 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -88,6 +88,10 @@ class WhatGateway(What, StrEnum):
     KERNEL_VERSION = "23"
     DISTRIBUTION_VERSION = "24"
 
+    def with_parameter(self, parameter: str | int) -> What:
+        """Returns the tag with the specified parameter."""
+        return What(f"{self}#{parameter}")
+
 
 class Gateway(BaseItem):
     """Gateway item used to query and configure the gateway device itself."""
-- 
2.43.0


From ef6d9daa342764d8fee2c66fe78253524a4531ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:53 +0000
Subject: [PATCH 34/39] fix: the event loop ends without an error when a
 callback closes the client

---
 pyown/client/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index 30f66a0..8337e65 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -122,6 +122,9 @@ class Client(BaseClient):
                 if not read.done():
                     break
                 message = read.result()
+            except InvalidSession:
+                # the client was closed before it could read
+                break
             except (ParseError, InvalidMessage, InvalidTag) as e:
                 log.warning("Error reading message: %s", e)
                 continue
-- 
2.43.0


From 0dc186589e199b0275fe0c5fa68a135cf923bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 35/39] fix: a callback that cannot be called does not keep the
 others from being called

---
 pyown/items/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyown/items/base.py b/pyown/items/base.py
index 2f820b2..e57b3a1 100644
--- a/pyown/items/base.py
+++ b/pyown/items/base.py
@@ -82,7 +82,11 @@ class BaseItem(ABC):
 
     @staticmethod
     def _create_tasks(funcs: list[CoroutineCallback], *args: Any) -> list[Task]:
-        return [asyncio.create_task(func(*args)) for func in funcs]
+        async def call(func: CoroutineCallback) -> None:
+            # a callback that cannot be called must not keep the others from being called
+            await func(*args)
+
+        return [asyncio.create_task(call(func)) for func in funcs]
 
     @classmethod
     async def call_callbacks(cls, item: Self, message: BaseMessage) -> list[Task]:
-- 
2.43.0


From 19f65296057a218b1c1cfff6926147d29f5ce214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:43 +0000
Subject: [PATCH 36/39] fix: a message waiting on a paused connection does not
 hang when the connection is lost

---
 pyown/protocol/protocol.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 19ba42f..07f29e3 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -60,6 +60,11 @@ class OWNProtocol(Protocol):
             log.info(f"Connection lost with exception: {exc}")
         else:
             log.info("Connection lost")
+
+        # A lost connection is never resumed, don't hold the messages waiting to be sent
+        if self._lock.locked():
+            self._lock.release()
+
         if exc is None:
             self._on_connection_end.set_result(None)
         else:
-- 
2.43.0


From 1ca96f65804be76e454275fb12e1599f0b00d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:19 +0000
Subject: [PATCH 37/39] fix: an event read while the event loop is cancelled is
 left for the next read

---
 pyown/client/client.py     |  6 ++++++
 pyown/protocol/protocol.py | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index 8337e65..8630c46 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -112,6 +112,7 @@ class Client(BaseClient):
             client = self
 
         transport, connection_end = self._transport, self._on_connection_end
+        protocol = self._protocol
 
         # loop until the client is closed, or the connection is dropped and its messages are all dispatched
         while self._transport is transport:
@@ -125,6 +126,11 @@ class Client(BaseClient):
             except InvalidSession:
                 # the client was closed before it could read
                 break
+            except asyncio.CancelledError:
+                if read.done() and read.exception() is None and protocol is not None:
+                    # the loop is cancelled with a message just read, leave it for the next read
+                    protocol.unread_message(read.result())
+                raise
             except (ParseError, InvalidMessage, InvalidTag) as e:
                 log.warning("Error reading message: %s", e)
                 continue
diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 07f29e3..b3cf00f 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -143,3 +143,16 @@ class OWNProtocol(Protocol):
         """
         messages = await self._messages_queue.get()
         return messages
+
+    def unread_message(self, msg: BaseMessage):
+        """Puts back a message that was read but not used, so that the next read gets it.
+
+        Args:
+            msg (BaseMessage): The last message read
+        """
+        messages = [msg]
+        while not self._messages_queue.empty():
+            messages.append(self._messages_queue.get_nowait())
+
+        for message in messages:
+            self._messages_queue.put_nowait(message)
-- 
2.43.0


From dc6e0a7aa35d58ffc59c7d0a6263ba7c6c5b5e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:29 +0000
Subject: [PATCH 38/39] fix: only a nonce or a hash algorithm starts the
 authentication

---
 pyown/client/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 6c00efe..7cfcdba 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -1,5 +1,6 @@
 import asyncio
 import logging
+import re
 from abc import ABC, abstractmethod
 from asyncio import AbstractEventLoop, Future, Transport
 from typing import Any, Optional
@@ -138,10 +139,10 @@ class BaseClient(ABC):
         # if it's a ∗98∗## open command, the server requires the hmac authentication algorithm
         if resp.type == MessageType.ACK:
             log.info("No authentication required")
-        elif len(resp.tags) == 1:
+        elif len(resp.tags) == 1 and re.fullmatch("#[0-9]+", resp.tags[0]):
             log.info("Using open authentication")
             await self._authenticate_open(nonce=resp.tags[0])
-        elif resp.tags[0] == "98":
+        elif len(resp.tags) == 2 and resp.tags[0] == "98":
             log.info("Using hmac authentication")
             tag = resp.tags[1]
             await self._authenticate_hmac(
-- 
2.43.0


From 3823b7426b37526bf1aa176a737d7f85d29641af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:01 +0000
Subject: [PATCH 39/39] fix: only a nonce and a proof of the documented form
 are accepted from the gateway

---
 pyown/client/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 7cfcdba..f865446 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -230,6 +230,9 @@ class BaseClient(ABC):
         Returns:
             str: The hex string
         """
+        if len(message.tags) != 1 or re.fullmatch("#[0-9]+", message.tags[0]) is None:
+            raise InvalidAuthentication("Invalid hmac message")
+
         try:
             return digits_to_hex(message.tags[0].removeprefix("#"))
         except ValueError:
-- 
2.43.0

