From 3ccef01b5d71537f5ad364489c08e6e9ccf03019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:46 +0000
Subject: [PATCH 01/77] fix: map asyncio timeouts of http requests to
 TimeoutError

aiohttp raises the builtin TimeoutError when the total timeout expires; it was
shadowed by the library's own class and surfaced as a non-retryable
KasaException.
---
 kasa/httpclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/httpclient.py b/kasa/httpclient.py
index 31d8dfb..fa35b49 100644
--- a/kasa/httpclient.py
+++ b/kasa/httpclient.py
@@ -144,7 +144,7 @@ class HttpClient:
             raise _ConnectionError(
                 f"Device connection error: {self._config.host}: {ex}", ex
             ) from ex
-        except (aiohttp.ServerTimeoutError, TimeoutError) as ex:
+        except (aiohttp.ServerTimeoutError, asyncio.TimeoutError) as ex:
             raise TimeoutError(
                 "Unable to query the device, "
                 + f"timed out: {self._config.host}: {ex}",
-- 
2.43.0


From 6e9243d0471ce3321d47b01b54177276f6b227b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:04 +0000
Subject: [PATCH 02/77] fix: raise KasaException for invalid json in klap
 responses

A correctly decrypted response that is not valid json leaked the json
library's exception to the caller.
---
 kasa/transports/klaptransport.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kasa/transports/klaptransport.py b/kasa/transports/klaptransport.py
index 8253e0a..ffc9980 100644
--- a/kasa/transports/klaptransport.py
+++ b/kasa/transports/klaptransport.py
@@ -396,7 +396,12 @@ class KlapTransport(BaseTransport):
                     f"Error trying to decrypt device {self._host} response: {ex}"
                 ) from ex
 
-            json_payload = json_loads(decrypted_response)
+            try:
+                json_payload = json_loads(decrypted_response)
+            except ValueError as ex:
+                raise KasaException(
+                    f"Error trying to parse device {self._host} response: {ex}"
+                ) from ex
 
             _LOGGER.debug("Device %s query response received", self._host)
 
-- 
2.43.0


From 2c6a51abc86453c86c5225f6428520d295d2f3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 03/77] fix: handle handshake1 answers without a result in
 sslaestransport

---
 kasa/transports/sslaestransport.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kasa/transports/sslaestransport.py b/kasa/transports/sslaestransport.py
index eeb2980..309f0af 100644
--- a/kasa/transports/sslaestransport.py
+++ b/kasa/transports/sslaestransport.py
@@ -525,7 +525,7 @@ class SslAesTransport(BaseTransport):
             not resp_dict
             or (error_code := self._get_response_error(resp_dict))
             is not SmartErrorCode.INVALID_NONCE
-            or "nonce" not in resp_dict["result"].get("data", {})
+            or "nonce" not in resp_dict.get("result", {}).get("data", {})
         ):
             _LOGGER.debug("Trying default credentials to %s", self._host)
             local_nonce = secrets.token_bytes(8).hex().upper()
@@ -535,9 +535,9 @@ class SslAesTransport(BaseTransport):
             # INVALID_NONCE means device should perform secure login
             if (
                 default_error_code := self._get_response_error(default_resp_dict)
-            ) is SmartErrorCode.INVALID_NONCE and "nonce" in default_resp_dict[
-                "result"
-            ].get("data", {}):
+            ) is SmartErrorCode.INVALID_NONCE and "nonce" in default_resp_dict.get(
+                "result", {}
+            ).get("data", {}):
                 _LOGGER.debug("Connected to %s with default username", self._host)
                 self._username = self._default_credentials.username
                 error_code = default_error_code
-- 
2.43.0


From eba75c3c7b8d30613fd909c0a221cc387f88fcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 04/77] fix: send encrypted after a secure login following a
 less secure one

---
 kasa/transports/sslaestransport.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kasa/transports/sslaestransport.py b/kasa/transports/sslaestransport.py
index 309f0af..0a0f2ae 100644
--- a/kasa/transports/sslaestransport.py
+++ b/kasa/transports/sslaestransport.py
@@ -473,6 +473,7 @@ class SslAesTransport(BaseTransport):
         lsk = self.generate_encryption_token("lsk", local_nonce, server_nonce, pwd_hash)
         ivb = self.generate_encryption_token("ivb", local_nonce, server_nonce, pwd_hash)
         self._encryption_session = AesEncyptionSession(lsk, ivb)
+        self._send_secure = True
         self._state = TransportState.ESTABLISHED
         _LOGGER.debug("Handshake2 complete ...")
 
-- 
2.43.0


From f8db535d7c0b283cb15f7ac9b3577fe49ac02d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 05/77] fix: handle unknown error codes in ssltransport

---
 kasa/transports/ssltransport.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index e4fef9a..8c1c9b7 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -117,7 +117,14 @@ class SslTransport(BaseTransport):
 
     async def _handle_response_error_code(self, resp_dict: Any, msg: str) -> None:
         """Handle response errors to request reauth etc."""
-        error_code = SmartErrorCode(resp_dict.get("error_code"))  # type: ignore[arg-type]
+        error_code_raw = resp_dict.get("error_code")
+        try:
+            error_code = SmartErrorCode.from_int(error_code_raw)
+        except ValueError:
+            _LOGGER.warning(
+                "Device %s received unknown error code: %s", self._host, error_code_raw
+            )
+            error_code = SmartErrorCode.INTERNAL_UNKNOWN_ERROR
         if error_code == SmartErrorCode.SUCCESS:
             return
 
-- 
2.43.0


From a98404a83859816c9910da74cec6705065e20868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 06/77] fix: query all requests individually when smart batches
 are disabled

---
 kasa/protocols/smartprotocol.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 5539de7..1bd3275 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -205,11 +205,10 @@ class SmartProtocol(BaseProtocol):
         multi_result: dict[str, Any] = {}
         smart_method = "multipleRequest"
 
-        end = len(requests)
         # The SmartCamProtocol sends requests with a length 1 as a
         # multipleRequest. The SmartProtocol doesn't so will never
         # raise_on_error
-        raise_on_error = end == 1
+        raise_on_error = len(requests) == 1
 
         multi_requests = [
             {"method": method, "params": params} if params else {"method": method}
@@ -220,16 +219,10 @@ class SmartProtocol(BaseProtocol):
         # Break the requests down as there can be a size limit
         step = self._multi_request_batch_size
         if step == 1:
-            # If step is 1 do not send request batches
-            for request in multi_requests:
-                method = request["method"]
-                req = self.get_smart_request(method, request.get("params"))
-                resp = await self._transport.send(req)
-                self._handle_response_error_code(
-                    resp, method, raise_on_error=raise_on_error
-                )
-                multi_result[method] = resp["result"]
-            return multi_result
+            # If step is 1 do not send request batches, all the
+            # requests will be queried individually
+            multi_requests = []
+        end = len(multi_requests)
 
         for batch_num, i in enumerate(range(0, end, step)):
             requests_step = multi_requests[i : i + step]
@@ -303,7 +296,7 @@ class SmartProtocol(BaseProtocol):
                 multi_result[method] = result
 
         # Multi requests don't continue after errors so requery any missing.
-        # Will also query individually any DO_NOT_SEND_AS_MULTI_REQUEST.
+        # Will also query individually any FORCE_SINGLE_REQUEST.
         for method, params in requests.items():
             if method not in multi_result:
                 resp = await self._transport.send(
@@ -312,7 +305,12 @@ class SmartProtocol(BaseProtocol):
                 self._handle_response_error_code(
                     resp, method, raise_on_error=raise_on_error
                 )
-                multi_result[method] = resp.get("result")
+                result = resp.get("result")
+                if iterate_list_pages and result:
+                    await self._handle_response_lists(
+                        result, method, params, retry_count=retry_count
+                    )
+                multi_result[method] = result
         return multi_result
 
     async def _execute_query(
-- 
2.43.0


From 2064d8842d71ae97c5f02421820b8c0bf3240b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 07/77] fix: report timeouts and connection errors of
 linkietransport as such

---
 kasa/transports/linkietransport.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kasa/transports/linkietransport.py b/kasa/transports/linkietransport.py
index b817373..1c86690 100644
--- a/kasa/transports/linkietransport.py
+++ b/kasa/transports/linkietransport.py
@@ -13,7 +13,12 @@ from yarl import URL
 
 from kasa.credentials import DEFAULT_CREDENTIALS, get_default_credentials
 from kasa.deviceconfig import DeviceConfig
-from kasa.exceptions import KasaException, _RetryableError
+from kasa.exceptions import (
+    KasaException,
+    TimeoutError,
+    _ConnectionError,
+    _RetryableError,
+)
 from kasa.httpclient import HttpClient
 from kasa.json import loads as json_loads
 from kasa.transports.xortransport import XorEncryption
@@ -123,6 +128,9 @@ class LinkieTransportV2(BaseTransport):
         """Send a message to the device and return a response."""
         try:
             return await self._execute_send(request)
+        except (TimeoutError, _ConnectionError):
+            await self.reset()
+            raise
         except Exception as ex:
             await self.reset()
             raise _RetryableError(
-- 
2.43.0


From db2a5900689531edfadaf270c502892d8a635593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 08/77] fix: raise KasaException for malformed responses while
 querying

---
 kasa/protocols/iotprotocol.py      |  6 ++++++
 kasa/protocols/smartcamprotocol.py | 10 +++++++++-
 kasa/protocols/smartprotocol.py    | 16 +++++++++++++++-
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/kasa/protocols/iotprotocol.py b/kasa/protocols/iotprotocol.py
index 7ca02e0..4f932f4 100755
--- a/kasa/protocols/iotprotocol.py
+++ b/kasa/protocols/iotprotocol.py
@@ -132,6 +132,12 @@ class IotProtocol(BaseProtocol):
                     ex,
                 )
                 raise ex
+            except Exception as ex:
+                # Devices can return malformed responses
+                await self._transport.reset()
+                raise KasaException(
+                    f"Unable to query the device {self._host}: {ex!r}"
+                ) from ex
 
         # make mypy happy, this should never be reached..
         raise KasaException("Query reached somehow to unreachable")
diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index 9bf40f7..44b1f26 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -217,7 +217,15 @@ class _ChildCameraProtocolWrapper(SmartProtocol):
 
     async def query(self, request: str | dict, retry_count: int = 3) -> dict:
         """Wrap request inside controlChild envelope."""
-        return await self._query(request, retry_count)
+        try:
+            return await self._query(request, retry_count)
+        except KasaException:
+            raise
+        except Exception as ex:
+            # Devices can return malformed responses
+            raise KasaException(
+                f"Unable to query the child device {self._device_id}: {ex!r}"
+            ) from ex
 
     async def _query(self, request: str | dict, retry_count: int = 3) -> dict:
         """Wrap request inside controlChild envelope."""
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 1bd3275..3e3621a 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -194,6 +194,12 @@ class SmartProtocol(BaseProtocol):
                     ex,
                 )
                 raise ex
+            except Exception as ex:
+                # Devices can return malformed responses
+                await self._transport.reset()
+                raise KasaException(
+                    f"Unable to query the device {self._host}: {ex!r}"
+                ) from ex
 
         # make mypy happy, this should never be reached..
         raise KasaException("Query reached somehow to unreachable")
@@ -480,7 +486,15 @@ class _ChildProtocolWrapper(SmartProtocol):
 
     async def query(self, request: str | dict, retry_count: int = 3) -> dict:
         """Wrap request inside control_child envelope."""
-        return await self._query(request, retry_count)
+        try:
+            return await self._query(request, retry_count)
+        except KasaException:
+            raise
+        except Exception as ex:
+            # Devices can return malformed responses
+            raise KasaException(
+                f"Unable to query the child device {self._device_id}: {ex!r}"
+            ) from ex
 
     async def _query(self, request: str | dict, retry_count: int = 3) -> dict:
         """Wrap request inside control_child envelope."""
-- 
2.43.0


From e1ab5e5e8e300b4d57a52b56bf366bd6600e6b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 09/77] fix: report errors of the parent for child requests of
 camera hubs

---
 kasa/protocols/smartcamprotocol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index 44b1f26..5519529 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -257,7 +257,9 @@ class _ChildCameraProtocolWrapper(SmartProtocol):
         raise_on_error = len(requests) == 1
 
         for index_id, response in enumerate(responses):
-            response_data = response["result"]["response_data"]
+            # If the parent could not pass on the request there is no result
+            result = response.get("result")
+            response_data = result["response_data"] if result else response
             method = methods[index_id]
             self._handle_response_error_code(
                 response_data, method, raise_on_error=raise_on_error
-- 
2.43.0


From ae61926e19648756e233f2f007a5c8b67f97036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:23 +0000
Subject: [PATCH 10/77] fix: do not share module data between a strip and its
 sockets

---
 kasa/iot/iotdevice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index d1de7f9..28f96b6 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -430,7 +430,9 @@ class IotDevice(Device):
                 # {'err_code': -1, 'err_msg': 'module not support'}
                 # become top level key/values of the response so check for dict
                 if isinstance(v, dict):
-                    update.setdefault(k, {}).update(**v)
+                    # Do not modify the previous data in place as sockets of a
+                    # strip start off with the data of their parent.
+                    update[k] = {**update.get(k, {}), **v}
         self._last_update = update
 
         # IOT modules are added as default but could be unsupported post first update
-- 
2.43.0


From dbb86b91d5d378306f23f4dcc65820fb13551e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 11/77] fix: handle iot devices that cannot report their
 timezone

---
 kasa/iot/modules/time.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kasa/iot/modules/time.py b/kasa/iot/modules/time.py
index 896172d..7be3ee9 100644
--- a/kasa/iot/modules/time.py
+++ b/kasa/iot/modules/time.py
@@ -24,8 +24,10 @@ class Time(IotModule, TimeInterface):
 
     async def _post_update_hook(self) -> None:
         """Perform actions after a device update."""
-        if res := self.data.get("get_timezone"):
-            self._timezone = await get_timezone(res.get("index"))
+        res = self.data.get("get_timezone")
+        # The response has no index if the device does not support the query
+        if res and (index := res.get("index")) is not None:
+            self._timezone = await get_timezone(index)
 
     @property
     def time(self) -> datetime:
-- 
2.43.0


From 6fc82c511311778ed79271c4321bf7fad108b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 12/77] fix: skip the post update hooks of unsupported iot
 modules

---
 kasa/iot/iotdevice.py | 3 ++-
 kasa/iot/iotstrip.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index 28f96b6..cbd1e70 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -323,7 +323,8 @@ class IotDevice(Device):
 
         self._set_sys_info(_extract_sys_info(self._last_update))
         for module in self._modules.values():
-            await module._post_update_hook()
+            if module.is_supported:
+                await module._post_update_hook()
 
         if not self._features:
             await self._initialize_features()
diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index a63b3e1..fe1cd8e 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -384,7 +384,8 @@ class IotStripPlug(IotPlug):
         """
         await self._modular_update({})
         for module in self._modules.values():
-            await module._post_update_hook()
+            if module.is_supported:
+                await module._post_update_hook()
 
         if not self._features:
             await self._initialize_features()
-- 
2.43.0


From 4aaa5a6d5d05d2082dbfdd709ba9ce112ce77527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:40 +0000
Subject: [PATCH 13/77] fix: ignore datagrams from non-discovery ports when
 tracking seen hosts

---
 kasa/discover.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 8e2b981..3ba67ee 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -348,6 +348,8 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
         # Prevent multiple entries due multiple broadcasts
         if ip in self.seen_hosts:
             return
+        if port not in {self.discovery_port, Discover.DISCOVERY_PORT_2}:
+            return
         self.seen_hosts.add(ip)
 
         device: Device | None = None
@@ -361,11 +363,9 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             if port == self.discovery_port:
                 json_func = Discover._get_discovery_json_legacy
                 device_func = Discover._get_device_instance_legacy
-            elif port == Discover.DISCOVERY_PORT_2:
+            else:
                 json_func = Discover._get_discovery_json
                 device_func = Discover._get_device_instance
-            else:
-                return
             info = json_func(data, ip)
             if self.on_discovered_raw is not None:
                 self.on_discovered_raw(
-- 
2.43.0


From f5007f63019a13249387a8af040c3b67752730a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:40 +0000
Subject: [PATCH 14/77] fix: treat unexpected discovery responses as invalid
 devices

---
 kasa/discover.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kasa/discover.py b/kasa/discover.py
index 3ba67ee..b6677a7 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -387,6 +387,13 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             self.invalid_device_exceptions[ip] = ex
             self._handle_discovered_event()
             return
+        except Exception as ex:
+            _LOGGER.debug("[DISCOVERY] Unexpected response from %s: %s", ip, ex)
+            self.invalid_device_exceptions[ip] = KasaException(
+                f"Unexpected discovery response from {ip}: {ex}"
+            )
+            self._handle_discovered_event()
+            return
 
         self.discovered_devices[ip] = device
 
-- 
2.43.0


From 8be114ae51eac208a9a7a1e2b02705ca13386a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:07 +0000
Subject: [PATCH 15/77] fix: report unsupported iot cameras as unsupported in
 discovery

---
 kasa/device_factory.py | 7 ++++++-
 kasa/discover.py       | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/kasa/device_factory.py b/kasa/device_factory.py
index ecb0d0a..6169aae 100644
--- a/kasa/device_factory.py
+++ b/kasa/device_factory.py
@@ -142,7 +142,12 @@ def get_device_class_from_sys_info(sysinfo: dict[str, Any]) -> type[IotDevice]:
         # Disabled until properly implemented
         # DeviceType.Camera: IotCamera,
     }
-    return TYPE_TO_CLASS[IotDevice._get_device_type_from_sys_info(sysinfo)]
+    device_type = IotDevice._get_device_type_from_sys_info(sysinfo)
+    if (device_class := TYPE_TO_CLASS.get(device_type)) is None:
+        raise UnsupportedDeviceError(
+            f"Unsupported device of type: {device_type}", discovery_result=sysinfo
+        )
+    return device_class
 
 
 def get_device_class_from_family(
diff --git a/kasa/discover.py b/kasa/discover.py
index b6677a7..b39aa62 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -746,7 +746,12 @@ class Discover:
             data = redact_data(info, IOT_REDACTORS) if Discover._redact_data else info
             _LOGGER.debug("[DISCOVERY] %s << %s", config.host, pf(data))
 
-        device_class = cast(type[IotDevice], Discover._get_device_class(info))
+        try:
+            device_class = cast(type[IotDevice], Discover._get_device_class(info))
+        except UnsupportedDeviceError as ex:
+            raise UnsupportedDeviceError(
+                f"{ex} at {config.host}", discovery_result=info, host=config.host
+            ) from ex
         device = device_class(config.host, config=config)
         sys_info = _extract_sys_info(info)
         device_type = sys_info.get("mic_type", sys_info.get("type"))
-- 
2.43.0


From 9a740be39e2c8f5f696c3ca0de6ef70703a88684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:10 +0000
Subject: [PATCH 16/77] fix: report legacy devices of unknown type as
 unsupported in discovery

---
 kasa/discover.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index b39aa62..4d6cad0 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -758,12 +758,19 @@ class Discover:
         login_version = (
             sys_info.get("stream_version") if device_type == "IOT.IPCAMERA" else None
         )
-        config.connection_type = DeviceConnectionParameters.from_values(
-            device_family=device_type,
-            encryption_type=DeviceEncryptionType.Xor.value,
-            https=device_type == "IOT.IPCAMERA",
-            login_version=login_version,
-        )
+        try:
+            config.connection_type = DeviceConnectionParameters.from_values(
+                device_family=device_type,
+                encryption_type=DeviceEncryptionType.Xor.value,
+                https=device_type == "IOT.IPCAMERA",
+                login_version=login_version,
+            )
+        except KasaException as ex:
+            raise UnsupportedDeviceError(
+                f"Unsupported device {config.host} of type {device_type}",
+                discovery_result=info,
+                host=config.host,
+            ) from ex
         device.protocol = get_protocol(config)  # type: ignore[assignment]
         device.update_from_discover_info(info)
         return device
-- 
2.43.0


From 36710e453405908ffd9edc7ba141937cbf1a2efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:28 +0000
Subject: [PATCH 17/77] fix: redact responses of single requests in debug logs

---
 kasa/protocols/smartcamprotocol.py | 10 ++++++++--
 kasa/protocols/smartprotocol.py    | 11 +++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index 5519529..a77c70f 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -19,7 +19,8 @@ from ..transports.sslaestransport import (
     SMART_RETRYABLE_ERRORS,
     SmartErrorCode,
 )
-from .smartprotocol import SmartProtocol
+from .protocol import redact_data
+from .smartprotocol import REDACTORS, SmartProtocol
 
 _LOGGER = logging.getLogger(__name__)
 
@@ -166,10 +167,15 @@ class SmartCamProtocol(SmartProtocol):
         response_data = await self._transport.send(smart_request)
 
         if debug_enabled:
+            data = (
+                redact_data(response_data, REDACTORS)
+                if self._redact_data
+                else response_data
+            )
             _LOGGER.debug(
                 "%s << %s",
                 self._host,
-                pf(response_data),
+                pf(data),
             )
 
         if "error_code" in response_data:
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 3e3621a..7a1f8b7 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -285,7 +285,9 @@ class SmartProtocol(BaseProtocol):
                         _LOGGER.error(
                             "No method key in response for %s, skipping: %s",
                             self._host,
-                            response_step,
+                            redact_data(response_step, REDACTORS)
+                            if self._redact_data
+                            else response_step,
                         )
                     # These will end up being queried individually
                     continue
@@ -346,10 +348,15 @@ class SmartProtocol(BaseProtocol):
         response_data = await self._transport.send(smart_request)
 
         if debug_enabled:
+            data = (
+                redact_data(response_data, REDACTORS)
+                if self._redact_data
+                else response_data
+            )
             _LOGGER.debug(
                 "%s << %s",
                 self._host,
-                pf(response_data),
+                pf(data),
             )
 
         self._handle_response_error_code(response_data, smart_method)
-- 
2.43.0


From cf7f7b9e8c9b4017164a4664f992f2bd263202d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:28 +0000
Subject: [PATCH 18/77] fix: do not log credentials and raw messages in
 transports

---
 kasa/smartcam/modules/camera.py    | 4 +---
 kasa/transports/linkietransport.py | 4 ++--
 kasa/transports/ssltransport.py    | 5 ++---
 3 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/kasa/smartcam/modules/camera.py b/kasa/smartcam/modules/camera.py
index bd4b280..429dd77 100644
--- a/kasa/smartcam/modules/camera.py
+++ b/kasa/smartcam/modules/camera.py
@@ -77,9 +77,7 @@ class Camera(SmartCamModule):
                     base64.b64decode(credentials_hash.encode()).decode()
                 )
             except Exception:
-                _LOGGER.warning(
-                    "Unable to deserialize credentials_hash: %s", credentials_hash
-                )
+                _LOGGER.warning("Unable to deserialize credentials_hash")
                 return None
             if (username := decoded.get("un")) and (password := decoded.get("pwd")):
                 return Credentials(username, password)
diff --git a/kasa/transports/linkietransport.py b/kasa/transports/linkietransport.py
index 1c86690..3c25747 100644
--- a/kasa/transports/linkietransport.py
+++ b/kasa/transports/linkietransport.py
@@ -73,7 +73,7 @@ class LinkieTransportV2(BaseTransport):
 
     async def _execute_send(self, request: str) -> dict:
         """Execute a query on the device and wait for the response."""
-        _LOGGER.debug("%s >> %s", self._host, request)
+        _LOGGER.debug("Sending query to %s", self._host)
 
         encrypted_cmd = XorEncryption.encrypt(request)[4:]
         b64_cmd = base64.b64encode(encrypted_cmd).decode()
@@ -100,7 +100,7 @@ class LinkieTransportV2(BaseTransport):
             json_payload: dict = json_loads(
                 XorEncryption.decrypt(base64.b64decode(response))
             )
-            _LOGGER.debug("%s << %s", self._host, json_payload)
+            _LOGGER.debug("Query response received from %s", self._host)
             return json_payload
         except Exception:  # noqa: S110
             pass
diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index 8c1c9b7..1176a9d 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -143,7 +143,7 @@ class SslTransport(BaseTransport):
         """Send request."""
         url = self._app_url
 
-        _LOGGER.debug("Sending %s to %s", request, url)
+        _LOGGER.debug("Sending request to %s", self._host)
 
         status_code, resp_dict = await self._http_client.post(
             url,
@@ -157,7 +157,7 @@ class SslTransport(BaseTransport):
                 + f"status code {status_code}"
             )
 
-        _LOGGER.debug("Response with %s: %r", status_code, resp_dict)
+        _LOGGER.debug("Response with %s", status_code)
 
         await self._handle_response_error_code(resp_dict, "Error sending request")
 
@@ -224,7 +224,6 @@ class SslTransport(BaseTransport):
 
     async def send(self, request: str) -> dict[str, Any]:
         """Send the request."""
-        _LOGGER.debug("Going to send %s", request)
         if self._state is not TransportState.ESTABLISHED or self._session_expired():
             _LOGGER.debug("Transport not established or session expired, logging in")
             await self.perform_login()
-- 
2.43.0


From e77487b30ae20766942b01c7ef9751f90740b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:28 +0000
Subject: [PATCH 19/77] fix: redact device data in log messages about children
 and unsupported devices

---
 kasa/discover.py                    |  6 ++++--
 kasa/smart/modules/childsetup.py    |  6 ++++--
 kasa/smart/smartdevice.py           | 25 ++++++++++++++++++-------
 kasa/smartcam/modules/childsetup.py |  4 +++-
 4 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 4d6cad0..bba61eb 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -918,7 +918,8 @@ class Discover:
         ) is None:
             _LOGGER.debug("Got unsupported device type: %s", type_)
             raise UnsupportedDeviceError(
-                f"Unsupported device {config.host} of type {type_}: {info}",
+                f"Unsupported device {config.host} of type {type_}: "
+                + f"{redact_data(info, NEW_DISCOVERY_REDACTORS)}",
                 discovery_result=discovery_result.to_dict(),
                 host=config.host,
             )
@@ -929,7 +930,8 @@ class Discover:
             )
             raise UnsupportedDeviceError(
                 f"Unsupported encryption scheme {config.host} of "
-                + f"type {config.connection_type.to_dict()}: {info}",
+                + f"type {config.connection_type.to_dict()}: "
+                + f"{redact_data(info, NEW_DISCOVERY_REDACTORS)}",
                 discovery_result=discovery_result.to_dict(),
                 host=config.host,
             )
diff --git a/kasa/smart/modules/childsetup.py b/kasa/smart/modules/childsetup.py
index f3bf88c..cebf789 100644
--- a/kasa/smart/modules/childsetup.py
+++ b/kasa/smart/modules/childsetup.py
@@ -10,6 +10,8 @@ import logging
 
 from ...feature import Feature
 from ...interfaces.childsetup import ChildSetup as ChildSetupInterface
+from ...protocols.protocol import redact_data
+from ...protocols.smartprotocol import REDACTORS
 from ..smartmodule import SmartModule
 
 _LOGGER = logging.getLogger(__name__)
@@ -67,7 +69,7 @@ class ChildSetup(SmartModule, ChildSetupInterface):
         _LOGGER.info(
             "Discovery done, found %s devices: %s",
             len(detected["child_device_list"]),
-            detected,
+            redact_data(detected, REDACTORS),
         )
 
         return await self._add_devices(detected)
@@ -108,5 +110,5 @@ class ChildSetup(SmartModule, ChildSetupInterface):
         """Return list of devices detected during scanning."""
         param = {"scan_list": self.data["device_category_list"]}
         res = await self.call("get_scan_child_device_list", param)
-        _LOGGER.debug("Scan status: %s", res)
+        _LOGGER.debug("Scan status: %s", redact_data(res, REDACTORS))
         return res["get_scan_child_device_list"]
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 2e2dc7c..081bf6a 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -18,6 +18,8 @@ from ..feature import Feature
 from ..module import Module
 from ..modulemapping import ModuleMapping, ModuleName
 from ..protocols import SmartProtocol
+from ..protocols.protocol import redact_data
+from ..protocols.smartprotocol import REDACTORS
 from ..transports import AesTransport
 from .modules import (
     ChildDevice,
@@ -128,14 +130,19 @@ class SmartDevice(Device):
 
                 child = await self._try_create_child(info, child_components)
                 if child:
-                    _LOGGER.debug("Created child device %s for %s", child, self.host)
+                    _LOGGER.debug(
+                        "Created child device %s for %s", child.model, self.host
+                    )
                     changed = True
                     children[child_id] = child
                     continue
 
                 if child_id not in self._logged_missing_child_ids:
                     self._logged_missing_child_ids.add(child_id)
-                    _LOGGER.debug("Child device type not supported: %s", info)
+                    _LOGGER.debug(
+                        "Child device type not supported: %s",
+                        redact_data(info, REDACTORS),
+                    )
                 continue
 
             if child_id:
@@ -143,10 +150,12 @@ class SmartDevice(Device):
                     self._logged_missing_child_ids.add(child_id)
                     _LOGGER.debug(
                         "Could not find child components for device %s, "
-                        "child_id %s, components: %s: ",
+                        "child: %s, components: %s",
                         self.host,
-                        child_id,
-                        smart_children_components,
+                        redact_data(info, REDACTORS),
+                        redact_data(
+                            list(smart_children_components.values()), REDACTORS
+                        ),
                     )
                 continue
 
@@ -156,14 +165,16 @@ class SmartDevice(Device):
             if "" not in self._logged_missing_child_ids:
                 self._logged_missing_child_ids.add("")
                 _LOGGER.debug(
-                    "Could not find child id for device %s, info: %s", self.host, info
+                    "Could not find child id for device %s, info: %s",
+                    self.host,
+                    redact_data(info, REDACTORS),
                 )
 
         removed_ids = existing_child_ids - child_ids
         for removed_id in removed_ids:
             changed = True
             removed = children.pop(removed_id)
-            _LOGGER.debug("Removed child device %s from %s", removed, self.host)
+            _LOGGER.debug("Removed child device %s from %s", removed.model, self.host)
 
         return changed
 
diff --git a/kasa/smartcam/modules/childsetup.py b/kasa/smartcam/modules/childsetup.py
index 676bd63..a523803 100644
--- a/kasa/smartcam/modules/childsetup.py
+++ b/kasa/smartcam/modules/childsetup.py
@@ -10,6 +10,8 @@ import logging
 
 from ...feature import Feature
 from ...interfaces.childsetup import ChildSetup as ChildSetupInterface
+from ...protocols.protocol import redact_data
+from ...protocols.smartprotocol import REDACTORS
 from ..smartcammodule import SmartCamModule
 
 _LOGGER = logging.getLogger(__name__)
@@ -75,7 +77,7 @@ class ChildSetup(SmartCamModule, ChildSetupInterface):
         _LOGGER.info(
             "Discovery done, found %s devices: %s",
             len(detected_list),
-            detected_list,
+            redact_data(detected_list, REDACTORS),
         )
         return await self._add_devices(detected_list)
 
-- 
2.43.0


From 36769862ed6bb6c11751dde76627c7c1f93dec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:46 +0000
Subject: [PATCH 20/77] fix: handle failing initial query of hub camera
 children

---
 kasa/smartcam/smartcamdevice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index 3beda36..7b04a4a 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -105,6 +105,7 @@ class SmartCamDevice(SmartDevice):
         """Initialize a smart child device attached to a smartcam device."""
         child_id = info["device_id"]
         child_protocol = _ChildCameraProtocolWrapper(child_id, self.protocol)
+        initial_response: dict | None = None
         try:
             initial_response = await child_protocol.query(
                 {"get_connect_cloud_state": None}
-- 
2.43.0


From d3b88aa00948fa262fcfd7c0f85af5eb9f349c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:00 +0000
Subject: [PATCH 21/77] fix: report module errors when reading light
 transitions

---
 kasa/smart/modules/lighttransition.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/lighttransition.py b/kasa/smart/modules/lighttransition.py
index e623108..47e67cc 100644
--- a/kasa/smart/modules/lighttransition.py
+++ b/kasa/smart/modules/lighttransition.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING, TypedDict
 
 from ...exceptions import KasaException
 from ...feature import Feature
-from ..smartmodule import SmartModule, allow_update_after
+from ..smartmodule import SmartModule, allow_update_after, raise_if_update_error
 
 if TYPE_CHECKING:
     from ..smartdevice import SmartDevice
@@ -165,11 +165,13 @@ class LightTransition(SmartModule):
             return {**on, **off}
 
     @property
+    @raise_if_update_error
     def enabled(self) -> bool:
         """Return True if gradual on/off is enabled."""
         return self._enabled
 
     @property
+    @raise_if_update_error
     def turn_on_transition(self) -> int:
         """Return transition time for turning the light on.
 
@@ -178,6 +180,7 @@ class LightTransition(SmartModule):
         return self._on_state["duration"] if self._on_state["enable"] else 0
 
     @property
+    @raise_if_update_error
     def _turn_on_transition_max(self) -> int:
         """Maximum turn on duration."""
         return self._on_state["max_duration"]
@@ -205,6 +208,7 @@ class LightTransition(SmartModule):
         )
 
     @property
+    @raise_if_update_error
     def turn_off_transition(self) -> int:
         """Return transition time for turning the light off.
 
@@ -213,6 +217,7 @@ class LightTransition(SmartModule):
         return self._off_state["duration"] if self._off_state["enable"] else 0
 
     @property
+    @raise_if_update_error
     def _turn_off_transition_max(self) -> int:
         """Maximum turn on duration."""
         # v3 added max_duration, we default to 60 when it's not available
-- 
2.43.0


From 4331c97bf89b0dc29b99277835070bea18abffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:00 +0000
Subject: [PATCH 22/77] fix: reject nan and booleans for number features

---
 kasa/feature.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kasa/feature.py b/kasa/feature.py
index 0c4c6e2..3ba0fc1 100644
--- a/kasa/feature.py
+++ b/kasa/feature.py
@@ -246,9 +246,10 @@ class Feature:
         if self.attribute_setter is None:
             raise ValueError("Tried to set read-only feature.")
         if self.type == Feature.Type.Number:  # noqa: SIM102
-            if not isinstance(value, int | float):
+            if not isinstance(value, int | float) or isinstance(value, bool):
                 raise ValueError("value must be a number")
-            if value < self.minimum_value or value > self.maximum_value:
+            # Negated as comparisons with nan are always false
+            if not self.minimum_value <= value <= self.maximum_value:
                 raise ValueError(
                     f"Value {value} out of range "
                     f"[{self.minimum_value}, {self.maximum_value}]"
-- 
2.43.0


From 7730bc253415de9e7c6e99a0f29411eba7ce05b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:19 +0000
Subject: [PATCH 23/77] fix: send the volume name when setting the alarm volume
 level

---
 kasa/smart/modules/alarm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/modules/alarm.py b/kasa/smart/modules/alarm.py
index cd60218..77f0a45 100644
--- a/kasa/smart/modules/alarm.py
+++ b/kasa/smart/modules/alarm.py
@@ -171,9 +171,9 @@ class Alarm(SmartModule, AlarmInterface):
         self, volume: AlarmVolume | int
     ) -> Annotated[dict, FeatureAttribute()]:
         """Set alarm volume."""
-        self._check_and_convert_volume(volume)
+        target_volume = self._check_and_convert_volume(volume)
         payload = self.data["get_alarm_configure"].copy()
-        payload["volume"] = volume
+        payload["volume"] = target_volume
         return await self.call("set_alarm_configure", payload)
 
     @property
-- 
2.43.0


From 15a023c1f958b726e204447400527734a1b1b624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:55 +0000
Subject: [PATCH 24/77] fix: validate color temperature arguments

---
 kasa/iot/iotbulb.py                    | 2 ++
 kasa/smart/modules/colortemperature.py | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/kasa/iot/iotbulb.py b/kasa/iot/iotbulb.py
index cb2e858..2263b9a 100644
--- a/kasa/iot/iotbulb.py
+++ b/kasa/iot/iotbulb.py
@@ -438,6 +438,8 @@ class IotBulb(IotDevice):
         if not self._is_variable_color_temp:
             raise KasaException("Bulb does not support colortemp.")
 
+        if not isinstance(temp, int):
+            raise TypeError("Color temperature must be an integer.")
         valid_temperature_range = self._valid_temperature_range
         if temp < valid_temperature_range[0] or temp > valid_temperature_range[1]:
             raise ValueError(
diff --git a/kasa/smart/modules/colortemperature.py b/kasa/smart/modules/colortemperature.py
index 32d6e67..10476a3 100644
--- a/kasa/smart/modules/colortemperature.py
+++ b/kasa/smart/modules/colortemperature.py
@@ -58,6 +58,15 @@ class ColorTemperature(SmartModule):
 
     async def set_color_temp(self, temp: int, *, brightness: int | None = None) -> dict:
         """Set the color temperature."""
+        if not isinstance(temp, int):
+            raise TypeError("Color temperature must be an integer")
+        if brightness is not None:
+            if not isinstance(brightness, int):
+                raise TypeError("Brightness must be an integer")
+            if not (0 <= brightness <= 100):
+                raise ValueError(
+                    f"Invalid brightness value: {brightness} (valid range: 0-100%)"
+                )
         valid_temperature_range = self.valid_temperature_range
         if temp < valid_temperature_range[0] or temp > valid_temperature_range[1]:
             raise ValueError(
-- 
2.43.0


From 1af0a3c9ca0d4e8e6d5fcaea572e78964e0266c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:55 +0000
Subject: [PATCH 25/77] fix: do not send light_on and transition in smart light
 states

---
 kasa/smart/modules/light.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/light.py b/kasa/smart/modules/light.py
index d548811..b0278e5 100644
--- a/kasa/smart/modules/light.py
+++ b/kasa/smart/modules/light.py
@@ -117,13 +117,15 @@ class Light(SmartModule, LightInterface):
     async def set_state(self, state: LightState) -> dict:
         """Set the light state."""
         state_dict = asdict(state)
+        # These are not parameters of the device
+        state_dict.pop("light_on")
+        state_dict.pop("transition")
         # brightness of 0 turns off the light, it's not a valid brightness
         if state.brightness == 0:
             state_dict["device_on"] = False
             del state_dict["brightness"]
         elif state.light_on is not None:
             state_dict["device_on"] = state.light_on
-            del state_dict["light_on"]
         else:
             state_dict["device_on"] = True
 
-- 
2.43.0


From 0383c303dd601354f4571124f1f3ed7ae97f5cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 26/77] fix: save light presets at their index on the device

---
 kasa/iot/modules/lightpreset.py   |  5 +++--
 kasa/smart/modules/lightpreset.py | 11 ++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/kasa/iot/modules/lightpreset.py b/kasa/iot/modules/lightpreset.py
index 3330af6..3ad19e5 100644
--- a/kasa/iot/modules/lightpreset.py
+++ b/kasa/iot/modules/lightpreset.py
@@ -134,7 +134,8 @@ class LightPreset(IotModule, LightPresetInterface):
         if preset_name not in self._presets:
             raise ValueError(f"{preset_name} is not a valid preset: {self.preset_list}")
 
-        index = list(self._presets.keys()).index(preset_name)
+        # Effects stored among the presets are not listed, use the index of the device
+        index = self._presets[preset_name].index
         state = asdict(preset_state)
         state = {k: v for k, v in state.items() if v is not None}
         state["index"] = index
@@ -163,7 +164,7 @@ class LightPreset(IotModule, LightPresetInterface):
         if len(self._presets) == 0:
             raise KasaException("Device does not supported saving presets")
 
-        if preset.index >= len(self._presets):
+        if preset.index not in {p.index for p in self._presets.values()}:
             raise KasaException("Invalid preset index")
 
         return await self.call("set_preferred_state", preset.to_dict())
diff --git a/kasa/smart/modules/lightpreset.py b/kasa/smart/modules/lightpreset.py
index 87e96ea..bc06814 100644
--- a/kasa/smart/modules/lightpreset.py
+++ b/kasa/smart/modules/lightpreset.py
@@ -28,6 +28,8 @@ class LightPreset(SmartModule, LightPresetInterface):
 
     _presets: dict[str, LightState]
     _preset_list: list[str]
+    #: Indexes of the presets on the device, where effects can be stored among them
+    _preset_indexes: dict[str, int]
 
     def __init__(self, device: SmartDevice, module: str) -> None:
         super().__init__(device, module)
@@ -38,10 +40,11 @@ class LightPreset(SmartModule, LightPresetInterface):
         """Update the internal presets."""
         index = 0
         self._presets = {}
+        self._preset_indexes = {}
 
         state_key = "states" if not self._state_in_sysinfo else self.SYS_INFO_STATE_KEY
         if preset_states := self.data.get(state_key):
-            for preset_state in preset_states:
+            for device_index, preset_state in enumerate(preset_states):
                 if "brightness" not in preset_state:
                     # Some devices can store effects as a preset. These will be ignored
                     # and handled in the effects module
@@ -53,6 +56,7 @@ class LightPreset(SmartModule, LightPresetInterface):
                 color_temp = preset_state.get("color_temp")
                 hue = preset_state.get("hue")
                 saturation = preset_state.get("saturation")
+                self._preset_indexes[f"Light preset {index + 1}"] = device_index
                 self._presets[f"Light preset {index + 1}"] = LightState(
                     brightness=preset_state["brightness"],
                     color_temp=color_temp,
@@ -139,8 +143,8 @@ class LightPreset(SmartModule, LightPresetInterface):
         """Update the preset with preset_name with the new preset_info."""
         if preset_name not in self._presets:
             raise ValueError(f"{preset_name} is not a valid preset: {self.preset_list}")
-        index = list(self._presets.keys()).index(preset_name)
         if self._brightness_only:
+            index = list(self._presets.keys()).index(preset_name)
             bright_list = [state.brightness for state in self._presets.values()]
             bright_list[index] = preset_state.brightness
             return await self.call("set_preset_rules", {"brightness": bright_list})
@@ -148,7 +152,8 @@ class LightPreset(SmartModule, LightPresetInterface):
             state_params = asdict(preset_state)
             new_info = {k: v for k, v in state_params.items() if v is not None}
             return await self.call(
-                "edit_preset_rules", {"index": index, "state": new_info}
+                "edit_preset_rules",
+                {"index": self._preset_indexes[preset_name], "state": new_info},
             )
 
     @property
-- 
2.43.0


From 8cb38eb327cc609a385affe2bd2df38b56aa26e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 27/77] fix: keep the scene name when changing the brightness
 of effects

---
 kasa/smart/modules/lighteffect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index 96135de..f7d9233 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -40,7 +40,7 @@ class LightEffect(SmartModule, SmartLightEffect):
                 effect["scene_name"] = self.AVAILABLE_BULB_EFFECTS[effect["id"]]
             else:
                 # Otherwise it might be b64 encoded or raw string
-                with contextlib.suppress(binascii.Error):
+                with contextlib.suppress(binascii.Error, UnicodeDecodeError):
                     effect["scene_name"] = base64.b64decode(
                         effect["scene_name"]
                     ).decode()
@@ -120,9 +120,9 @@ class LightEffect(SmartModule, SmartLightEffect):
         If *effect_id* is None, return the data for active effect.
         """
         if effect_id is None:
-            effect_id = self.data["current_rule_id"]
+            effect_id = self._device._info["dynamic_light_effect_id"]
 
-        return self._effect_state_list[effect_id]
+        return next(rule for rule in self.data["rule_list"] if rule["id"] == effect_id)
 
     @property
     def brightness(self) -> int:
-- 
2.43.0


From 22c3998da002cda388847ce10fbdb5c3e792a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:11 +0000
Subject: [PATCH 28/77] fix: accept all stored preset indexes and effect rules
 unknown to the device info

---
 kasa/iot/modules/lightpreset.py   | 2 +-
 kasa/smart/modules/lighteffect.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/kasa/iot/modules/lightpreset.py b/kasa/iot/modules/lightpreset.py
index 3ad19e5..60f191f 100644
--- a/kasa/iot/modules/lightpreset.py
+++ b/kasa/iot/modules/lightpreset.py
@@ -164,7 +164,7 @@ class LightPreset(IotModule, LightPresetInterface):
         if len(self._presets) == 0:
             raise KasaException("Device does not supported saving presets")
 
-        if preset.index not in {p.index for p in self._presets.values()}:
+        if preset.index >= len(self.data["preferred_state"]):
             raise KasaException("Invalid preset index")
 
         return await self.call("set_preferred_state", preset.to_dict())
diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index f7d9233..524112b 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -120,7 +120,9 @@ class LightEffect(SmartModule, SmartLightEffect):
         If *effect_id* is None, return the data for active effect.
         """
         if effect_id is None:
-            effect_id = self._device._info["dynamic_light_effect_id"]
+            effect_id = self._device._info.get(
+                "dynamic_light_effect_id", self.data["current_rule_id"]
+            )
 
         return next(rule for rule in self.data["rule_list"] if rule["id"] == effect_id)
 
-- 
2.43.0


From 484fc316f0c13506bef879b91524229fc62ca6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:33 +0000
Subject: [PATCH 29/77] fix: use the stored rule id only if no effect is active

---
 kasa/smart/modules/lighteffect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index 524112b..0aceb9b 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -120,9 +120,9 @@ class LightEffect(SmartModule, SmartLightEffect):
         If *effect_id* is None, return the data for active effect.
         """
         if effect_id is None:
-            effect_id = self._device._info.get(
-                "dynamic_light_effect_id", self.data["current_rule_id"]
-            )
+            effect_id = self._device._info.get("dynamic_light_effect_id")
+        if effect_id is None:
+            effect_id = self.data["current_rule_id"]
 
         return next(rule for rule in self.data["rule_list"] if rule["id"] == effect_id)
 
-- 
2.43.0


From 4eea14084521e53532df63a52711a99a0a83497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:40 +0000
Subject: [PATCH 30/77] fix: do not report missing energy readings as zero or
 summed voltages

---
 kasa/iot/iotstrip.py         | 20 ++++++++++++--------
 kasa/smart/modules/energy.py | 12 ++++++------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index fe1cd8e..ef79bc4 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -211,12 +211,19 @@ class StripEmeter(IotModule, Energy):
     async def get_status(self) -> EmeterStatus:
         """Retrieve current energy readings."""
         emeter_rt = await self._async_get_emeter_sum("get_status", {})
+        return self._average_voltage(emeter_rt)
+
+    def _average_voltage(self, emeter: dict) -> EmeterStatus:
+        """Return status with the average voltage of the summed up readings."""
         # Voltage is averaged since each read will result
         # in a slightly different voltage since they are not atomic
-        emeter_rt["voltage_mv"] = int(
-            emeter_rt["voltage_mv"] / len(self._device.children)
-        )
-        return EmeterStatus(emeter_rt)
+        if "voltage_mv" in emeter:
+            emeter["voltage_mv"] = int(
+                emeter["voltage_mv"] / len(self._device.children)
+            )
+        if "voltage" in emeter:
+            emeter["voltage"] = emeter["voltage"] / len(self._device.children)
+        return EmeterStatus(emeter)
 
     async def get_daily_stats(
         self, year: int | None = None, month: int | None = None, kwh: bool = True
@@ -291,10 +298,7 @@ class StripEmeter(IotModule, Energy):
         emeter = merge_sums(
             [plug.modules[Module.Energy].status for plug in self._device.children]
         )
-        # Voltage is averaged since each read will result
-        # in a slightly different voltage since they are not atomic
-        emeter["voltage_mv"] = int(emeter["voltage_mv"] / len(self._device.children))
-        return EmeterStatus(emeter)
+        return self._average_voltage(emeter)
 
     @property
     def current(self) -> float | None:
diff --git a/kasa/smart/modules/energy.py b/kasa/smart/modules/energy.py
index 03df6d1..8e82bf8 100644
--- a/kasa/smart/modules/energy.py
+++ b/kasa/smart/modules/energy.py
@@ -77,12 +77,12 @@ class Energy(SmartModule, EnergyInterface):
         return self._energy
 
     def _get_status_from_energy(self, energy: dict) -> EmeterStatus:
-        return EmeterStatus(
-            {
-                "power_mw": energy.get("current_power", 0),
-                "total": energy.get("today_energy", 0) / 1_000,
-            }
-        )
+        status = {}
+        if (power := energy.get("current_power")) is not None:
+            status["power_mw"] = power
+        if (today := energy.get("today_energy")) is not None:
+            status["total"] = today / 1_000
+        return EmeterStatus(status)
 
     @property
     @raise_if_update_error
-- 
2.43.0


From 5470141d74a4bdaf4f3f64e851cae54d73d4a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:30 +0000
Subject: [PATCH 31/77] fix: ignore usage of the same day or month in another
 month or year

---
 kasa/iot/modules/emeter.py | 16 ++++++++--------
 kasa/iot/modules/usage.py  | 20 ++++++++++++++++----
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/kasa/iot/modules/emeter.py b/kasa/iot/modules/emeter.py
index 012bda0..3d2e573 100644
--- a/kasa/iot/modules/emeter.py
+++ b/kasa/iot/modules/emeter.py
@@ -37,18 +37,18 @@ class Emeter(Usage, EnergyInterface):
     @property
     def consumption_today(self) -> float | None:
         """Return today's energy consumption in kWh."""
-        raw_data = self.daily_data
-        today = datetime.now().day
-        data = self._convert_stat_data(raw_data, entry_key="day", key=today)
-        return data.get(today, 0.0)
+        now = datetime.now()
+        raw_data = [e for e in self.daily_data if self._is_current(e, now)]
+        data = self._convert_stat_data(raw_data, entry_key="day", key=now.day)
+        return data.get(now.day, 0.0)
 
     @property
     def consumption_this_month(self) -> float | None:
         """Return this month's energy consumption in kWh."""
-        raw_data = self.monthly_data
-        current_month = datetime.now().month
-        data = self._convert_stat_data(raw_data, entry_key="month", key=current_month)
-        return data.get(current_month, 0.0)
+        now = datetime.now()
+        raw_data = [e for e in self.monthly_data if self._is_current(e, now)]
+        data = self._convert_stat_data(raw_data, entry_key="month", key=now.month)
+        return data.get(now.month, 0.0)
 
     @property
     def current_consumption(self) -> float | None:
diff --git a/kasa/iot/modules/usage.py b/kasa/iot/modules/usage.py
index 89d8cca..e3704fd 100644
--- a/kasa/iot/modules/usage.py
+++ b/kasa/iot/modules/usage.py
@@ -42,23 +42,35 @@ class Usage(IotModule):
     @property
     def usage_today(self) -> int | None:
         """Return today's usage in minutes."""
-        today = datetime.now().day
+        now = datetime.now()
         # Traverse the list in reverse order to find the latest entry.
         for entry in reversed(self.daily_data):
-            if entry["day"] == today:
+            if entry["day"] == now.day and self._is_current(entry, now):
                 return entry["time"]
         return None
 
     @property
     def usage_this_month(self) -> int | None:
         """Return usage in this month in minutes."""
-        this_month = datetime.now().month
+        now = datetime.now()
         # Traverse the list in reverse order to find the latest entry.
         for entry in reversed(self.monthly_data):
-            if entry["month"] == this_month:
+            if self._is_current(entry, now):
                 return entry["time"]
         return None
 
+    @staticmethod
+    def _is_current(entry: dict, now: datetime) -> bool:
+        """Return True if the entry belongs to the current month.
+
+        The data can be from a previous month or year if the month changed after
+        the last update.
+        """
+        return (
+            entry.get("year", now.year) == now.year
+            and entry.get("month", now.month) == now.month
+        )
+
     async def get_raw_daystat(
         self, *, year: int | None = None, month: int | None = None
     ) -> dict:
-- 
2.43.0


From aa0df613c5a1b8f292a34af103c5bd0eb161409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:31 +0000
Subject: [PATCH 32/77] fix: compute the on since time across clock and utc
 offset changes

---
 kasa/device.py            | 16 +++++++++++++++-
 kasa/iot/iotdevice.py     |  8 ++------
 kasa/iot/iotstrip.py      | 12 ++++--------
 kasa/smart/smartdevice.py |  8 ++------
 4 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/kasa/device.py b/kasa/device.py
index c4ea41e..5f2688a 100644
--- a/kasa/device.py
+++ b/kasa/device.py
@@ -109,7 +109,7 @@ import logging
 from abc import ABC, abstractmethod
 from collections.abc import Callable, Mapping, Sequence
 from dataclasses import dataclass
-from datetime import datetime, tzinfo
+from datetime import UTC, datetime, timedelta, tzinfo
 from typing import TYPE_CHECKING, Any, TypeAlias
 from warnings import warn
 
@@ -471,6 +471,20 @@ class Device(ABC):
         five seconds to avoid device-caused jitter.
         """
 
+    @staticmethod
+    def _calculate_on_since(
+        time: datetime, on_time: float, previous: datetime | None
+    ) -> datetime:
+        """Return the time the device was turned on given the device's current time.
+
+        Returns the previous value if it differs only by device-caused jitter.
+        """
+        # Calculate in UTC as the utc offset may have changed since
+        on_since = time.astimezone(UTC) - timedelta(seconds=on_time)
+        if previous and abs(on_since - previous) <= timedelta(seconds=5):
+            return previous
+        return on_since.astimezone(time.tzinfo)
+
     @abstractmethod
     async def wifi_scan(self) -> list[WifiNetwork]:
         """Scan for available wifi networks."""
diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index cbd1e70..b74ce5e 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -18,7 +18,7 @@ import functools
 import inspect
 import logging
 from collections.abc import Callable, Mapping, Sequence
-from datetime import datetime, timedelta, tzinfo
+from datetime import datetime, tzinfo
 from typing import TYPE_CHECKING, Any, cast
 from warnings import warn
 
@@ -644,11 +644,7 @@ class IotDevice(Device):
 
         on_time = self._sys_info["on_time"]
 
-        on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
-            self._on_since = on_since
+        self._on_since = self._calculate_on_since(self.time, on_time, self._on_since)
         return self._on_since
 
     @property  # type: ignore
diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index ef79bc4..7dfb16a 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import logging
 from collections import defaultdict
-from datetime import datetime, timedelta
+from datetime import datetime
 from typing import TYPE_CHECKING, Any
 
 from ..device_type import DeviceType
@@ -469,13 +469,9 @@ class IotStripPlug(IotPlug):
         info = self._get_child_info()
         on_time = info["on_time"]
 
-        time = self._parent.time
-
-        on_since = time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
-            self._on_since = on_since
+        self._on_since = self._calculate_on_since(
+            self._parent.time, on_time, self._on_since
+        )
         return self._on_since
 
     @property  # type: ignore
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 081bf6a..c766d9d 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -7,7 +7,7 @@ import logging
 import time
 from collections import OrderedDict
 from collections.abc import Sequence
-from datetime import UTC, datetime, timedelta, tzinfo
+from datetime import UTC, datetime, tzinfo
 from typing import TYPE_CHECKING, Any, TypeAlias, cast
 
 from ..device import Device, DeviceInfo, WifiNetwork
@@ -638,11 +638,7 @@ class SmartDevice(Device):
             return None
 
         on_time = cast(float, on_time)
-        on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
-            self._on_since = on_since
+        self._on_since = self._calculate_on_since(self.time, on_time, self._on_since)
         return self._on_since
 
     @property
-- 
2.43.0


From 7838c2beecec1aa3cf5501f29e91f0f8ca1494f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:31 +0000
Subject: [PATCH 33/77] fix: handle unknown timezones and indexes of iot
 devices

---
 kasa/iot/iottimezone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/iot/iottimezone.py b/kasa/iot/iottimezone.py
index 6553834..7b85ace 100644
--- a/kasa/iot/iottimezone.py
+++ b/kasa/iot/iottimezone.py
@@ -14,7 +14,7 @@ _LOGGER = logging.getLogger(__name__)
 
 async def get_timezone(index: int) -> tzinfo:
     """Get the timezone from the index."""
-    if index > 109:
+    if index not in TIMEZONE_INDEX:
         _LOGGER.error(
             "Unexpected index %s not configured as a timezone, defaulting to UTC", index
         )
@@ -35,7 +35,7 @@ async def get_timezone_index(tzone: tzinfo) -> int:
     for i in range(110):
         if _is_same_timezone(tzone, await get_timezone(i)):
             return i
-    raise ValueError("Device does not support timezone %s", name)
+    raise ValueError(f"Device does not support timezone {tzone}")
 
 
 async def get_matching_timezones(tzone: tzinfo) -> list[str]:
-- 
2.43.0


From ba33edb18ff4a7bf6d462e379fe29374fe94f48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:31 +0000
Subject: [PATCH 34/77] fix: handle invalid time zone names and send the local
 time of the camera

---
 kasa/smart/modules/time.py    | 2 +-
 kasa/smartcam/modules/time.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/kasa/smart/modules/time.py b/kasa/smart/modules/time.py
index f986fa3..8a5a068 100644
--- a/kasa/smart/modules/time.py
+++ b/kasa/smart/modules/time.py
@@ -41,7 +41,7 @@ class Time(SmartModule, TimeInterface):
             try:
                 # Zoneinfo will return a DST aware object
                 tz: tzinfo = await CachedZoneInfo.get_cached_zone_info(region)
-            except ZoneInfoNotFoundError:
+            except (ZoneInfoNotFoundError, ValueError):
                 tz = timezone(td, region)
         else:
             # in case the device returns a blank region this will result in the
diff --git a/kasa/smartcam/modules/time.py b/kasa/smartcam/modules/time.py
index 54ee30e..275da58 100644
--- a/kasa/smartcam/modules/time.py
+++ b/kasa/smartcam/modules/time.py
@@ -53,7 +53,7 @@ class Time(SmartCamModule, TimeInterface):
         try:
             # Zoneinfo will return a DST aware object
             tz: tzinfo = await CachedZoneInfo.get_cached_zone_info(zone_id)
-        except ZoneInfoNotFoundError:
+        except (ZoneInfoNotFoundError, ValueError):
             # timezone string like: UTC+10:00
             timezone_str = timezone_data["timezone"]
             tz = cast(tzinfo, datetime.strptime(timezone_str[-6:], "%z").tzinfo)
@@ -82,7 +82,8 @@ class Time(SmartCamModule, TimeInterface):
         else:
             timestamp = dt.timestamp()
 
-        lt = datetime.fromtimestamp(timestamp).isoformat().replace("T", " ")
+        tz = dt.tzinfo if isinstance(dt.tzinfo, ZoneInfo) else self.timezone
+        lt = datetime.fromtimestamp(int(timestamp), tz).strftime("%Y-%m-%d %H:%M:%S")
         params = {"seconds_from_1970": int(timestamp), "local_time": lt}
         # Doesn't seem to update the time, perhaps because timing_mode is ntp
         res = await self.call("setTimezone", {"system": {"clock_status": params}})
-- 
2.43.0


From c53793ae525b45702bf77c1062eab21af0c83cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 35/77] fix: keep the data of child modules that were not
 queried in the last update

---
 kasa/smart/smartchilddevice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/smartchilddevice.py b/kasa/smart/smartchilddevice.py
index 3f730f0..455653b 100644
--- a/kasa/smart/smartchilddevice.py
+++ b/kasa/smart/smartchilddevice.py
@@ -101,7 +101,8 @@ class SmartChildDevice(SmartDevice):
                 resp = await self._handle_modular_update_error(
                     ex, first_update, ", ".join(mod.name for mod in module_queries), req
                 )
-            self._last_update = resp
+            # Keep the responses of modules that were not queried this time
+            self._last_update = {**self._last_update, **resp}
 
         for module in self.modules.values():
             await self._handle_module_post_update(
-- 
2.43.0


From 6d7330b5cf2942a3d7182f0932ca367c7f626b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 36/77] fix: handle errors of negotiation, device info and
 child component queries in updates

---
 kasa/smart/smartdevice.py       | 22 +++++++++++++++-------
 kasa/smartcam/smartcamdevice.py | 12 ++++++++----
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index c766d9d..18c4ebd 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -235,7 +235,9 @@ class SmartDevice(Device):
         self._info = self._try_get_response(resp, "get_device_info")
 
         # Create our internal presentation of available components
-        self._components_raw = cast(ComponentsRaw, resp["component_nego"])
+        self._components_raw = cast(
+            ComponentsRaw, self._try_get_response(resp, "component_nego")
+        )
 
         self._components = self._parse_components(self._components_raw)
 
@@ -251,9 +253,12 @@ class SmartDevice(Device):
         if child_info := self._try_get_response(
             self._last_update, "get_child_device_list", {}
         ):
-            changed = await self._create_delete_children(
-                child_info, self._last_update["get_child_device_component_list"]
-            )
+            if child_components := self._try_get_response(
+                self._last_update, "get_child_device_component_list", {}
+            ):
+                changed = await self._create_delete_children(
+                    child_info, child_components
+                )
 
             for info in child_info["child_device_list"]:
                 child_id = info.get("device_id")
@@ -276,7 +281,6 @@ class SmartDevice(Device):
 
         first_update = self._last_update_time is None
         now = time.monotonic()
-        self._last_update_time = now
 
         if first_update:
             await self._negotiate()
@@ -285,6 +289,9 @@ class SmartDevice(Device):
             if cloud_mod := self.modules.get(Module.Cloud):
                 await self._handle_module_post_update(cloud_mod, now, had_query=True)
 
+        # Set only after a successful negotiation, otherwise it would never be retried.
+        self._last_update_time = now
+
         resp = await self._modular_update(first_update, now)
 
         children_changed = await self._update_children_info()
@@ -363,9 +370,10 @@ class SmartDevice(Device):
                 ex, first_update, ", ".join(mod.name for mod in module_queries), req
             )
 
-        info_resp = self._last_update if first_update else resp
-        self._last_update.update(**resp)
+        # Check the device info first to keep the previous data if the update failed
+        info_resp = {**self._last_update, **resp} if first_update else resp
         self._update_internal_info(info_resp)
+        self._last_update.update(**resp)
 
         # Call handle update for modules that want to update internal data
         for module in self._modules.values():
diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index 7b04a4a..224b623 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -85,9 +85,12 @@ class SmartCamDevice(SmartDevice):
         if child_info := self._try_get_response(
             self._last_update, "getChildDeviceList", {}
         ):
-            changed = await self._create_delete_children(
-                child_info, self._last_update["getChildDeviceComponentList"]
-            )
+            if child_components := self._try_get_response(
+                self._last_update, "getChildDeviceComponentList", {}
+            ):
+                changed = await self._create_delete_children(
+                    child_info, child_components
+                )
 
             for info in child_info["child_device_list"]:
                 child_id = info.get("device_id")
@@ -215,7 +218,8 @@ class SmartCamDevice(SmartDevice):
         self._update_internal_info(resp)
 
         self._components_raw = cast(
-            ComponentsRaw, resp["getAppComponentList"]["app_component"]
+            ComponentsRaw,
+            self._try_get_response(resp, "getAppComponentList")["app_component"],
         )
         self._components = self._parse_components(self._components_raw)
 
-- 
2.43.0


From 7ea967a06194c9d76aadb257f4d699c0d8e15d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 37/77] fix: do not fail camera updates if the connection type
 cannot be queried

---
 kasa/smartcam/modules/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smartcam/modules/device.py b/kasa/smartcam/modules/device.py
index 7f84de1..bd692c4 100644
--- a/kasa/smartcam/modules/device.py
+++ b/kasa/smartcam/modules/device.py
@@ -38,7 +38,7 @@ class DeviceModule(SmartCamModule):
                 type=Feature.Type.Sensor,
             )
         )
-        if self.rssi is not None:
+        if not self._has_data_error() and self.rssi is not None:
             self._add_feature(
                 Feature(
                     self._device,
-- 
2.43.0


From fb7730028137f75b953b207a035e821b2d6a25c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 38/77] fix: do not share consumables between devices nor fail
 if they cannot be queried

---
 kasa/smart/modules/consumables.py | 44 +++++++++++++++----------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/kasa/smart/modules/consumables.py b/kasa/smart/modules/consumables.py
index 10de583..fc1dd1e 100644
--- a/kasa/smart/modules/consumables.py
+++ b/kasa/smart/modules/consumables.py
@@ -8,7 +8,7 @@ from dataclasses import dataclass
 from datetime import timedelta
 
 from ...feature import Feature
-from ..smartmodule import SmartModule
+from ..smartmodule import SmartModule, raise_if_update_error
 
 _LOGGER = logging.getLogger(__name__)
 
@@ -86,10 +86,12 @@ class Consumables(SmartModule):
     REQUIRED_COMPONENT = "consumables"
     QUERY_GETTER_NAME = "getConsumablesInfo"
 
-    _consumables: dict[str, Consumable] = {}
+    _consumables: dict[str, Consumable]
 
     def _initialize_features(self) -> None:
         """Initialize features."""
+        if self._has_data_error():
+            return
         for c_meta in CONSUMABLE_METAS:
             if c_meta.data_key not in self.data:
                 continue
@@ -100,7 +102,7 @@ class Consumables(SmartModule):
                     id=f"{c_meta.id}_used",
                     name=f"{c_meta.name} used",
                     container=self,
-                    attribute_getter=lambda _, c_id=c_meta.id: self._consumables[
+                    attribute_getter=lambda _, c_id=c_meta.id: self.consumables[
                         c_id
                     ].used,
                     category=Feature.Category.Debug,
@@ -114,7 +116,7 @@ class Consumables(SmartModule):
                     id=f"{c_meta.id}_remaining",
                     name=f"{c_meta.name} remaining",
                     container=self,
-                    attribute_getter=lambda _, c_id=c_meta.id: self._consumables[
+                    attribute_getter=lambda _, c_id=c_meta.id: self.consumables[
                         c_id
                     ].remaining,
                     category=Feature.Category.Info,
@@ -136,24 +138,21 @@ class Consumables(SmartModule):
 
     async def _post_update_hook(self) -> None:
         """Update the consumables."""
-        if not self._consumables:
-            for consumable_meta in CONSUMABLE_METAS:
-                if consumable_meta.data_key not in self.data:
-                    continue
-                used = timedelta(minutes=self.data[consumable_meta.data_key])
-                consumable = Consumable(
-                    id=consumable_meta.id,
-                    name=consumable_meta.name,
-                    lifetime=consumable_meta.lifetime,
-                    used=used,
-                    remaining=consumable_meta.lifetime - used,
-                    _data_key=consumable_meta.data_key,
-                )
-                self._consumables[consumable_meta.id] = consumable
-        else:
-            for consumable in self._consumables.values():
-                consumable.used = timedelta(minutes=self.data[consumable._data_key])
-                consumable.remaining = consumable.lifetime - consumable.used
+        consumables: dict[str, Consumable] = {}
+        data = self.data
+        for consumable_meta in CONSUMABLE_METAS:
+            if consumable_meta.data_key not in data:
+                continue
+            used = timedelta(minutes=data[consumable_meta.data_key])
+            consumables[consumable_meta.id] = Consumable(
+                id=consumable_meta.id,
+                name=consumable_meta.name,
+                lifetime=consumable_meta.lifetime,
+                used=used,
+                remaining=consumable_meta.lifetime - used,
+                _data_key=consumable_meta.data_key,
+            )
+        self._consumables = consumables
 
     async def reset_consumable(self, consumable_id: str) -> dict:
         """Reset consumable stats."""
@@ -165,6 +164,7 @@ class Consumables(SmartModule):
         )
 
     @property
+    @raise_if_update_error
     def consumables(self) -> Mapping[str, Consumable]:
         """Get list of consumables on the device."""
         return self._consumables
-- 
2.43.0


From 7e5f90c7113e4100fc629e3333f4fdd99649ec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 39/77] fix: do not alter vacuum responses and handle records
 without device time

---
 kasa/smart/modules/clean.py        |  5 +++--
 kasa/smart/modules/cleanrecords.py | 30 +++++++++++++++++++++---------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/kasa/smart/modules/clean.py b/kasa/smart/modules/clean.py
index 376e0d3..a31b78d 100644
--- a/kasa/smart/modules/clean.py
+++ b/kasa/smart/modules/clean.py
@@ -9,7 +9,7 @@ from typing import Annotated, Literal
 
 from ...feature import Feature
 from ...module import FeatureAttribute
-from ..smartmodule import SmartModule
+from ..smartmodule import SmartModule, raise_if_update_error
 
 _LOGGER = logging.getLogger(__name__)
 
@@ -240,7 +240,7 @@ class Clean(SmartModule):
                 "Multiple error codes, using the first one only: %s", errors
             )
 
-        error = errors.pop(0)
+        error = errors[0]
         try:
             self._error_code = ErrorCode(error)
         except ValueError:
@@ -306,6 +306,7 @@ class Clean(SmartModule):
         return await self.call("setSwitchCharge", {"switch_charge": enabled})
 
     @property
+    @raise_if_update_error
     def error(self) -> ErrorCode:
         """Return error."""
         return self._error_code
diff --git a/kasa/smart/modules/cleanrecords.py b/kasa/smart/modules/cleanrecords.py
index fdd0dae..cb4e539 100644
--- a/kasa/smart/modules/cleanrecords.py
+++ b/kasa/smart/modules/cleanrecords.py
@@ -14,7 +14,7 @@ from mashumaro.types import SerializationStrategy
 
 from ...feature import Feature
 from ...module import FeatureAttribute
-from ..smartmodule import Module, SmartModule
+from ..smartmodule import Module, SmartModule, raise_if_update_error
 from .clean import AreaUnit, Clean
 
 _LOGGER = logging.getLogger(__name__)
@@ -87,11 +87,15 @@ class Records(DataClassDictMixin):
     @classmethod
     def __pre_deserialize__(cls, d: dict) -> dict:
         if ldr := d.get("lastest_day_record"):
-            d["lastest_day_record"] = {
-                "timestamp": ldr[0],
-                "clean_time": ldr[1],
-                "clean_area": ldr[2],
-                "dust_collection": ldr[3],
+            # Do not alter the passed response
+            d = {
+                **d,
+                "lastest_day_record": {
+                    "timestamp": ldr[0],
+                    "clean_time": ldr[1],
+                    "clean_area": ldr[2],
+                    "dust_collection": ldr[3],
+                },
             }
         return d
 
@@ -104,9 +108,10 @@ class CleanRecords(SmartModule):
 
     async def _post_update_hook(self) -> None:
         """Cache parsed data after an update."""
-        self._parsed_data = Records.from_dict(
-            self.data, dialect=_get_tz_strategy(self._device.timezone)
-        )
+        # Use the timezone of the module as the current time might not be available
+        time_mod = self._device.modules.get(Module.Time)
+        tz = time_mod.timezone if time_mod else self._device.timezone
+        self._parsed_data = Records.from_dict(self.data, dialect=_get_tz_strategy(tz))
 
     def _initialize_features(self) -> None:
         """Initialize features."""
@@ -164,31 +169,37 @@ class CleanRecords(SmartModule):
         }
 
     @property
+    @raise_if_update_error
     def total_clean_area(self) -> Annotated[int, FeatureAttribute()]:
         """Return total cleaning area."""
         return self._parsed_data.total_area
 
     @property
+    @raise_if_update_error
     def total_clean_time(self) -> timedelta:
         """Return total cleaning time."""
         return self._parsed_data.total_time
 
     @property
+    @raise_if_update_error
     def total_clean_count(self) -> int:
         """Return total clean count."""
         return self._parsed_data.total_count
 
     @property
+    @raise_if_update_error
     def last_clean_area(self) -> Annotated[int, FeatureAttribute()]:
         """Return latest cleaning area."""
         return self._parsed_data.last_clean.clean_area
 
     @property
+    @raise_if_update_error
     def last_clean_time(self) -> timedelta:
         """Return total cleaning time."""
         return self._parsed_data.last_clean.clean_time
 
     @property
+    @raise_if_update_error
     def last_clean_timestamp(self) -> datetime:
         """Return latest cleaning timestamp."""
         return self._parsed_data.last_clean.timestamp
@@ -200,6 +211,7 @@ class CleanRecords(SmartModule):
         return clean.area_unit
 
     @property
+    @raise_if_update_error
     def parsed_data(self) -> Records:
         """Return parsed records data."""
         return self._parsed_data
-- 
2.43.0


From f5dc28512cf0d65f630a6056bcd688b8442a504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 40/77] fix: raise update errors instead of returning stale
 values

---
 kasa/smart/modules/childsetup.py    | 3 ++-
 kasa/smart/modules/lighteffect.py   | 9 ++++++++-
 kasa/smart/modules/lightpreset.py   | 5 ++++-
 kasa/smartcam/modules/childsetup.py | 2 ++
 kasa/smartcam/modules/time.py       | 4 +++-
 5 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/kasa/smart/modules/childsetup.py b/kasa/smart/modules/childsetup.py
index cebf789..523b9d3 100644
--- a/kasa/smart/modules/childsetup.py
+++ b/kasa/smart/modules/childsetup.py
@@ -12,7 +12,7 @@ from ...feature import Feature
 from ...interfaces.childsetup import ChildSetup as ChildSetupInterface
 from ...protocols.protocol import redact_data
 from ...protocols.smartprotocol import REDACTORS
-from ..smartmodule import SmartModule
+from ..smartmodule import SmartModule, raise_if_update_error
 
 _LOGGER = logging.getLogger(__name__)
 
@@ -47,6 +47,7 @@ class ChildSetup(SmartModule, ChildSetupInterface):
         ]
 
     @property
+    @raise_if_update_error
     def supported_categories(self) -> list[str]:
         """Supported child device categories."""
         return self._categories
diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index 0aceb9b..30bec87 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -9,7 +9,12 @@ import copy
 from typing import Any
 
 from ..effects import SmartLightEffect
-from ..smartmodule import Module, SmartModule, allow_update_after
+from ..smartmodule import (
+    Module,
+    SmartModule,
+    allow_update_after,
+    raise_if_update_error,
+)
 
 
 class LightEffect(SmartModule, SmartLightEffect):
@@ -61,6 +66,7 @@ class LightEffect(SmartModule, SmartLightEffect):
             self._effect = self.LIGHT_EFFECTS_OFF
 
     @property
+    @raise_if_update_error
     def effect_list(self) -> list[str]:
         """Return built-in effects list.
 
@@ -70,6 +76,7 @@ class LightEffect(SmartModule, SmartLightEffect):
         return self._effect_list
 
     @property
+    @raise_if_update_error
     def effect(self) -> str:
         """Return effect name."""
         return self._effect
diff --git a/kasa/smart/modules/lightpreset.py b/kasa/smart/modules/lightpreset.py
index bc06814..eba4012 100644
--- a/kasa/smart/modules/lightpreset.py
+++ b/kasa/smart/modules/lightpreset.py
@@ -9,7 +9,7 @@ from typing import TYPE_CHECKING
 
 from ...interfaces import LightPreset as LightPresetInterface
 from ...interfaces import LightState
-from ..smartmodule import SmartModule, allow_update_after
+from ..smartmodule import SmartModule, allow_update_after, raise_if_update_error
 
 if TYPE_CHECKING:
     from ..smartdevice import SmartDevice
@@ -78,6 +78,7 @@ class LightPreset(SmartModule, LightPresetInterface):
         self._preset_list.extend(self._presets.keys())
 
     @property
+    @raise_if_update_error
     def preset_list(self) -> list[str]:
         """Return built-in effects list.
 
@@ -87,6 +88,7 @@ class LightPreset(SmartModule, LightPresetInterface):
         return self._preset_list
 
     @property
+    @raise_if_update_error
     def preset_states_list(self) -> Sequence[LightState]:
         """Return built-in effects list.
 
@@ -96,6 +98,7 @@ class LightPreset(SmartModule, LightPresetInterface):
         return list(self._presets.values())
 
     @property
+    @raise_if_update_error
     def preset(self) -> str:
         """Return current preset name."""
         light = self._device.modules[SmartModule.Light]
diff --git a/kasa/smartcam/modules/childsetup.py b/kasa/smartcam/modules/childsetup.py
index a523803..0bf8962 100644
--- a/kasa/smartcam/modules/childsetup.py
+++ b/kasa/smartcam/modules/childsetup.py
@@ -12,6 +12,7 @@ from ...feature import Feature
 from ...interfaces.childsetup import ChildSetup as ChildSetupInterface
 from ...protocols.protocol import redact_data
 from ...protocols.smartprotocol import REDACTORS
+from ...smart.smartmodule import raise_if_update_error
 from ..smartcammodule import SmartCamModule
 
 _LOGGER = logging.getLogger(__name__)
@@ -49,6 +50,7 @@ class ChildSetup(SmartCamModule, ChildSetupInterface):
         ]
 
     @property
+    @raise_if_update_error
     def supported_categories(self) -> list[str]:
         """Supported child device categories."""
         return self._categories
diff --git a/kasa/smartcam/modules/time.py b/kasa/smartcam/modules/time.py
index 275da58..a2d88b2 100644
--- a/kasa/smartcam/modules/time.py
+++ b/kasa/smartcam/modules/time.py
@@ -9,7 +9,7 @@ from zoneinfo import ZoneInfo, ZoneInfoNotFoundError
 from ...cachedzoneinfo import CachedZoneInfo
 from ...feature import Feature
 from ...interfaces import Time as TimeInterface
-from ...smart.smartmodule import allow_update_after
+from ...smart.smartmodule import allow_update_after, raise_if_update_error
 from ..smartcammodule import SmartCamModule
 
 
@@ -65,11 +65,13 @@ class Time(SmartCamModule, TimeInterface):
         )
 
     @property
+    @raise_if_update_error
     def timezone(self) -> tzinfo:
         """Return current timezone."""
         return self._timezone
 
     @property
+    @raise_if_update_error
     def time(self) -> datetime:
         """Return device's current datetime."""
         return self._time
-- 
2.43.0


From 0cd3dbec6a824908028d04c3f19ae09d0579d466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:43 +0000
Subject: [PATCH 41/77] fix: refresh the strip information of the sockets on
 updates

---
 kasa/iot/iotstrip.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index 7dfb16a..59496b5 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -143,6 +143,12 @@ class IotStrip(IotDevice):
             for child in self._children.values():
                 await child._initialize_modules()
 
+        # The sockets share the system information of the strip
+        for plug in self.children:
+            if TYPE_CHECKING:
+                assert isinstance(plug, IotStripPlug)
+            plug._set_sys_info(self.sys_info)
+
         if update_children:
             for plug in self.children:
                 if TYPE_CHECKING:
-- 
2.43.0


From 02c40bf970a33f99880b8672e4a1d61d7b36b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:43 +0000
Subject: [PATCH 42/77] fix: raise a library error when reading the device info
 before the first update

---
 kasa/device.py                  | 2 ++
 kasa/smartcam/smartcamdevice.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/kasa/device.py b/kasa/device.py
index 5f2688a..6b6d8cc 100644
--- a/kasa/device.py
+++ b/kasa/device.py
@@ -341,6 +341,8 @@ class Device(ABC):
     @property
     def device_info(self) -> DeviceInfo:
         """Return device info."""
+        if not self._last_update:
+            raise KasaException("You need to await update() to access the data")
         return self._get_device_info(self._last_update, self._discovery_info)
 
     @staticmethod
diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index 224b623..daae1ef 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -292,4 +292,6 @@ class SmartCamDevice(SmartDevice):
     @property
     def rssi(self) -> int | None:
         """Return the device id."""
-        return self.modules[SmartCamModule.SmartCamDeviceModule].rssi
+        if not (module := self.modules.get(SmartCamModule.SmartCamDeviceModule)):
+            return None
+        return module.rssi
-- 
2.43.0


From f40c41af2c735341cef10b52c313db82bb4ef96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:09 +0000
Subject: [PATCH 43/77] fix: send the values of the dimmer button and fade
 types

---
 kasa/iot/iotdimmer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/iot/iotdimmer.py b/kasa/iot/iotdimmer.py
index 6b22d64..ee0d4ae 100644
--- a/kasa/iot/iotdimmer.py
+++ b/kasa/iot/iotdimmer.py
@@ -204,9 +204,9 @@ class IotDimmer(IotPlug):
          (nothing, instant, gentle, change preset)
         :param index int: in case of preset change, the preset to select
         """
-        action_type_setter = f"set_{action_type}"
+        action_type_setter = f"set_{ActionType(action_type).value}"
 
-        payload: dict[str, Any] = {"mode": str(action)}
+        payload: dict[str, Any] = {"mode": ButtonAction(action).value}
         if index is not None:
             payload["index"] = index
 
@@ -217,7 +217,7 @@ class IotDimmer(IotPlug):
     @requires_update
     async def set_fade_time(self, fade_type: FadeType, time: int) -> dict:
         """Set time for fade in / fade out."""
-        fade_type_setter = f"set_{fade_type}_time"
+        fade_type_setter = f"set_{FadeType(fade_type).value}_time"
         payload = {"fadeTime": time}
 
         return await self._query_helper(self.DIMMER_SERVICE, fade_type_setter, payload)
-- 
2.43.0


From be2102a0a937ee1ab93d94be0b8a85ec8bcfa33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:09 +0000
Subject: [PATCH 44/77] fix: report the charging state of camera batteries

---
 kasa/smartcam/modules/battery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smartcam/modules/battery.py b/kasa/smartcam/modules/battery.py
index d6bd97f..083cfdc 100644
--- a/kasa/smartcam/modules/battery.py
+++ b/kasa/smartcam/modules/battery.py
@@ -110,4 +110,4 @@ class Battery(SmartCamModule):
     @property
     def battery_charging(self) -> bool:
         """Return True if battery is charging."""
-        return self._device.sys_info["battery_voltage"] != "NO"
+        return self._device.sys_info["battery_charging"] != "NO"
-- 
2.43.0


From 9a6bfdfe2414affe5b867503b4815a64abf42c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:09 +0000
Subject: [PATCH 45/77] fix: report thermostats with only a low battery state
 as idle

---
 kasa/smart/modules/temperaturecontrol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/modules/temperaturecontrol.py b/kasa/smart/modules/temperaturecontrol.py
index 5b08046..616c2d8 100644
--- a/kasa/smart/modules/temperaturecontrol.py
+++ b/kasa/smart/modules/temperaturecontrol.py
@@ -93,12 +93,13 @@ class TemperatureControl(SmartModule):
 
         states = self.states
 
+        # Discard known extra states, and report on unknown extra states
+        states.discard("low_battery")
+
         # If the states is empty, the device is idling
         if not states:
             return ThermostatState.Idle
 
-        # Discard known extra states, and report on unknown extra states
-        states.discard("low_battery")
         if len(states) > 1:
             _LOGGER.warning("Got multiple states: %s", states)
 
-- 
2.43.0


From 25f7008d8e140e430592985c77a096c13ced965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:09 +0000
Subject: [PATCH 46/77] fix: refuse clean counts and temperature units the
 device does not have

---
 kasa/smart/modules/clean.py             | 2 ++
 kasa/smart/modules/temperaturesensor.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/kasa/smart/modules/clean.py b/kasa/smart/modules/clean.py
index a31b78d..ad043e4 100644
--- a/kasa/smart/modules/clean.py
+++ b/kasa/smart/modules/clean.py
@@ -409,4 +409,6 @@ class Clean(SmartModule):
 
     async def set_clean_count(self, count: int) -> Annotated[dict, FeatureAttribute()]:
         """Set number of times to clean."""
+        if not 1 <= count <= 3:
+            raise ValueError(f"Invalid clean count {count}, should be in range 1-3")
         return await self._change_setting("clean_number", count)
diff --git a/kasa/smart/modules/temperaturesensor.py b/kasa/smart/modules/temperaturesensor.py
index 0a591a3..08a3d02 100644
--- a/kasa/smart/modules/temperaturesensor.py
+++ b/kasa/smart/modules/temperaturesensor.py
@@ -78,4 +78,6 @@ class TemperatureSensor(SmartModule):
         self, unit: Literal["celsius", "fahrenheit"]
     ) -> dict:
         """Set the device temperature unit."""
+        if unit not in ("celsius", "fahrenheit"):
+            raise ValueError(f"Invalid temperature unit {unit}")
         return await self.call("set_temperature_unit", {"temp_unit": unit})
-- 
2.43.0


From 133f616ee4b5fd536edc0e0805eb61125862885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:09 +0000
Subject: [PATCH 47/77] fix: refuse empty alarm sounds instead of ignoring them

---
 kasa/smartcam/modules/alarm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/smartcam/modules/alarm.py b/kasa/smartcam/modules/alarm.py
index df1891e..2277eae 100644
--- a/kasa/smartcam/modules/alarm.py
+++ b/kasa/smartcam/modules/alarm.py
@@ -191,7 +191,7 @@ class Alarm(SmartCamModule, AlarmInterface):
         volume: int | None = None,
         sound: str | None = None,
     ) -> dict:
-        if sound and sound not in self.alarm_sounds:
+        if sound is not None and sound not in self.alarm_sounds:
             raise ValueError(
                 f"sound must be one of {', '.join(self.alarm_sounds)}: {sound}"
             )
@@ -206,7 +206,7 @@ class Alarm(SmartCamModule, AlarmInterface):
             raise ValueError(f"volume must be between {VOLUME_MIN} and {VOLUME_MAX}")
 
         config: dict[str, str | int] = {}
-        if sound:
+        if sound is not None:
             config["siren_type"] = sound
         if duration is not None:
             config["duration"] = duration
-- 
2.43.0


From dcc8997027fe635e2d883be64f998538ef4c1aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:09 +0000
Subject: [PATCH 48/77] fix: report the alert time of water leak sensors
 without time module

---
 kasa/smart/modules/waterleaksensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/waterleaksensor.py b/kasa/smart/modules/waterleaksensor.py
index b6f0101..b21ec14 100644
--- a/kasa/smart/modules/waterleaksensor.py
+++ b/kasa/smart/modules/waterleaksensor.py
@@ -84,5 +84,7 @@ class WaterleakSensor(SmartModule):
             return None
 
         ts = self._device.sys_info["trigger_timestamp"]
-        tz = self._device.modules[Module.Time].timezone
+        # Sensors without time of their own use the time of the hub
+        time_mod = self._device.modules.get(Module.Time)
+        tz = time_mod.timezone if time_mod else self._device.timezone
         return datetime.fromtimestamp(ts, tz=tz)
-- 
2.43.0


From 501188effa2ad9a789a7e66a7a29e53a478dff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:28 +0000
Subject: [PATCH 49/77] fix: accept firmware download states without
 auto_upgrade

Devices with firmware component version 1 (e.g. L920-5) do not send
auto_upgrade, so an update never noticed that it had ended (P30).
---
 kasa/smart/modules/firmware.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/firmware.py b/kasa/smart/modules/firmware.py
index 8dd3a6b..795badd 100644
--- a/kasa/smart/modules/firmware.py
+++ b/kasa/smart/modules/firmware.py
@@ -35,7 +35,8 @@ class DownloadState(DataClassDictMixin):
     progress: Annotated[int, Alias("download_progress")]
     reboot_time: int
     upgrade_time: int
-    auto_upgrade: bool
+    # Not sent by firmware component version 1
+    auto_upgrade: bool = False
 
 
 @dataclass
-- 
2.43.0


From 172e66582a281974ed9807dcfa05ea9599dbf800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:34 +0000
Subject: [PATCH 50/77] fix: percent-encode spaces in rtsp stream urls

quote_plus turns spaces into plus signs, which are literal in the user info
of a url, so credentials with spaces did not reach the camera (P31).
---
 kasa/smartcam/modules/camera.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/smartcam/modules/camera.py b/kasa/smartcam/modules/camera.py
index 429dd77..4a6a74d 100644
--- a/kasa/smartcam/modules/camera.py
+++ b/kasa/smartcam/modules/camera.py
@@ -6,7 +6,7 @@ import base64
 import logging
 from enum import StrEnum
 from typing import Annotated
-from urllib.parse import quote_plus
+from urllib.parse import quote
 
 from ...credentials import Credentials
 from ...feature import Feature
@@ -114,8 +114,8 @@ class Camera(SmartCamModule):
         if not credentials or not credentials.username or not credentials.password:
             return None
 
-        username = quote_plus(credentials.username)
-        password = quote_plus(credentials.password)
+        username = quote(credentials.username, safe="")
+        password = quote(credentials.password, safe="")
 
         return f"rtsp://{username}:{password}@{self._device.host}:{LOCAL_STREAMING_PORT}/{stream}"
 
-- 
2.43.0


From a6059326277d767c1573b01d2f16355f7f9729e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:34 +0000
Subject: [PATCH 51/77] fix: send the commands of the iot cloud module

The methods only built the request and never sent it to the device (P31).
---
 kasa/iot/modules/cloud.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/kasa/iot/modules/cloud.py b/kasa/iot/modules/cloud.py
index d4e91a0..fe8012c 100644
--- a/kasa/iot/modules/cloud.py
+++ b/kasa/iot/modules/cloud.py
@@ -58,20 +58,18 @@ class Cloud(IotModule):
         """Return information about the cloud connectivity."""
         return CloudInfo.from_dict(self.data["get_info"])
 
-    def get_available_firmwares(self) -> dict:
+    async def get_available_firmwares(self) -> dict:
         """Return list of available firmwares."""
-        return self.query_for_command("get_intl_fw_list")
+        return await self.call("get_intl_fw_list")
 
-    def set_server(self, url: str) -> dict:
+    async def set_server(self, url: str) -> dict:
         """Set the update server URL."""
-        return self.query_for_command("set_server_url", {"server": url})
+        return await self.call("set_server_url", {"server": url})
 
-    def connect(self, username: str, password: str) -> dict:
+    async def connect(self, username: str, password: str) -> dict:
         """Login to the cloud using given information."""
-        return self.query_for_command(
-            "bind", {"username": username, "password": password}
-        )
+        return await self.call("bind", {"username": username, "password": password})
 
-    def disconnect(self) -> dict:
+    async def disconnect(self) -> dict:
         """Disconnect from the cloud."""
-        return self.query_for_command("unbind")
+        return await self.call("unbind")
-- 
2.43.0


From e688fac1a52f61b982e805447df011e558586bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:34 +0000
Subject: [PATCH 52/77] fix: do not fail wifi scans on ssids that are not utf-8

A single such network in range made the whole scan fail (P31).
---
 kasa/smart/smartdevice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 18c4ebd..65d9428 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -754,7 +754,8 @@ class SmartDevice(Device):
 
         def _net_for_scan_info(res: dict) -> WifiNetwork:
             return WifiNetwork(
-                ssid=base64.b64decode(res["ssid"]).decode(),
+                # SSIDs are arbitrary bytes that need not be valid utf-8
+                ssid=base64.b64decode(res["ssid"]).decode(errors="replace"),
                 cipher_type=res["cipher_type"],
                 key_type=res["key_type"],
                 channel=res["channel"],
-- 
2.43.0


From 3f7ec11faad934478ed217ff898cf4fd411da178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:05 +0000
Subject: [PATCH 53/77] fix: keep the mode of turn on behaviors in step with
 the preset

Changing the preset of a behavior, which is documented to be sufficient, sent
the old mode along, so that the device ignored the change (P32).
---
 kasa/iot/iotbulb.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotbulb.py b/kasa/iot/iotbulb.py
index 2263b9a..52adb7c 100644
--- a/kasa/iot/iotbulb.py
+++ b/kasa/iot/iotbulb.py
@@ -6,7 +6,7 @@ import logging
 import re
 from dataclasses import dataclass
 from enum import Enum
-from typing import Annotated, cast
+from typing import Annotated, Any, cast
 
 from mashumaro import DataClassDictMixin
 from mashumaro.config import BaseConfig
@@ -69,6 +69,12 @@ class TurnOnBehavior(DataClassDictMixin):
     hue: int | None = None
     saturation: int | None = None
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        # The mode follows the preset when that is changed after the creation
+        if name == "preset" and "preset" in self.__dict__:
+            self.mode = BehaviorMode.Last if value is None else BehaviorMode.Preset
+        super().__setattr__(name, value)
+
 
 @dataclass
 class TurnOnBehaviors(DataClassDictMixin):
-- 
2.43.0


From 003acc0fe8c67d029175ff4d998a83fe6e3efc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:05 +0000
Subject: [PATCH 54/77] fix: let the cli set the first preset as turn on
 behavior

The index 0 was taken as not given, and a missing type did not fail (P32).
---
 kasa/cli/light.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index a778556..831b784 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -201,13 +201,12 @@ async def turn_on_behavior(dev: Device, type, last, preset):
     echo(f"Current turn on behavior: {settings}")
 
     # Return if we are not setting the value
-    if not type and not last and not preset:
+    if not type and not last and preset is None:
         return settings
 
     # If we are setting the value, the type has to be specified
-    if (last or preset) and type is None:
-        echo("To set the behavior, you need to define --type")
-        return
+    if type is None:
+        error("To set the behavior, you need to define --type")
 
     behavior = getattr(settings, type)
 
-- 
2.43.0


From 6dffb6bd875cfa966258bdfb0a7e996149e79bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:05 +0000
Subject: [PATCH 55/77] fix: modify the color temperature of presets in the cli

The option raised an AttributeError, and negative indexes were accepted (P32).
---
 kasa/cli/light.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index 831b784..fcf8c0d 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -159,7 +159,7 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
         return
 
     max_index = len(light_preset.preset_states_list) - 1
-    if index > len(light_preset.preset_states_list) - 1:
+    if not 0 <= index <= max_index:
         error(f"Invalid index, must be between 0 and {max_index}")
         return
 
@@ -179,7 +179,7 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
         preset.hue = hue
     if saturation is not None and preset.saturation is not None:
         preset.saturation = saturation
-    if temperature is not None and preset.temperature is not None:
+    if temperature is not None and preset.color_temp is not None:
         preset.color_temp = temperature
 
     echo(f"Updating preset {preset_name} to: {preset}")
-- 
2.43.0


From 43bdfecdc877579d500d8cec69705ac005e8b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:05 +0000
Subject: [PATCH 56/77] fix: list the rules of a schedule in the cli

The command always ended with an error and printed even with --json (P32).
---
 kasa/cli/schedule.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kasa/cli/schedule.py b/kasa/cli/schedule.py
index 7c9c738..96510d2 100644
--- a/kasa/cli/schedule.py
+++ b/kasa/cli/schedule.py
@@ -24,12 +24,13 @@ async def schedule(dev) -> None:
 async def _schedule_list(dev, type):
     """Return the list of schedule actions for the given type."""
     sched = dev.modules[type]
-    for rule in sched.rules:
-        print(rule)
-    else:
+    if not (rules := sched.rules):
         error(f"No rules of type {type}")
 
-    return sched.rules
+    for rule in rules:
+        echo(str(rule))
+
+    return rules
 
 
 @schedule.command(name="delete")
-- 
2.43.0


From a58a47e65a326bdc074f7a0150a7b97d92c7d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:05 +0000
Subject: [PATCH 57/77] fix: print only json with --json

The vacuum and logs commands and logged messages went to stdout, too, which
made the output unusable (P32).
---
 kasa/cli/device.py |  2 +-
 kasa/cli/main.py   |  5 ++++-
 kasa/cli/vacuum.py | 13 +++++++------
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/kasa/cli/device.py b/kasa/cli/device.py
index 7610a7c..cd92363 100644
--- a/kasa/cli/device.py
+++ b/kasa/cli/device.py
@@ -211,4 +211,4 @@ async def child_logs(dev):
     if logs := dev.modules.get(Module.TriggerLogs):
         await dev.update(update_children=True)
         for entry in logs.logs:
-            print(entry)
+            echo(str(entry))
diff --git a/kasa/cli/main.py b/kasa/cli/main.py
index 4f1eccd..8ac0184 100755
--- a/kasa/cli/main.py
+++ b/kasa/cli/main.py
@@ -259,10 +259,13 @@ async def cli(
         "level": logging.DEBUG if debug > 0 else logging.INFO
     }
     try:
+        from rich.console import Console
         from rich.logging import RichHandler
 
-        rich_config = {
+        rich_config: dict[str, Any] = {
             "show_time": False,
+            # Only the results belong to stdout
+            "console": Console(stderr=True),
         }
         logging_config["handlers"] = [RichHandler(**rich_config)]
         logging_config["format"] = "%(message)s"
diff --git a/kasa/cli/vacuum.py b/kasa/cli/vacuum.py
index d0ccc55..2e6edb2 100644
--- a/kasa/cli/vacuum.py
+++ b/kasa/cli/vacuum.py
@@ -10,6 +10,7 @@ from kasa import (
 )
 
 from .common import (
+    echo,
     error,
     pass_dev_or_child,
 )
@@ -30,12 +31,12 @@ async def records_group(dev: Device) -> None:
 
     data = rec.parsed_data
     latest = data.last_clean
-    click.echo(
+    echo(
         f"Totals: {rec.total_clean_area} {rec.area_unit} in {rec.total_clean_time} "
         f"(cleaned {rec.total_clean_count} times)"
     )
-    click.echo(f"Last clean: {latest.clean_area} {rec.area_unit} @ {latest.clean_time}")
-    click.echo("Execute `kasa vacuum records list` to list all records.")
+    echo(f"Last clean: {latest.clean_area} {rec.area_unit} @ {latest.clean_time}")
+    echo("Execute `kasa vacuum records list` to list all records.")
 
 
 @records_group.command(name="list")
@@ -47,7 +48,7 @@ async def records_list(dev: Device) -> None:
 
     data = rec.parsed_data
     for record in data.records:
-        click.echo(
+        echo(
             f"* {record.timestamp}: cleaned {record.clean_area} {rec.area_unit}"
             f" in {record.clean_time}"
         )
@@ -63,7 +64,7 @@ async def consumables(ctx: click.Context, dev: Device) -> None:
 
     if not ctx.invoked_subcommand:
         for c in cons.consumables.values():
-            click.echo(f"{c.name} ({c.id}): {c.used} used, {c.remaining} remaining")
+            echo(f"{c.name} ({c.id}): {c.used} used, {c.remaining} remaining")
 
 
 @consumables.command(name="reset")
@@ -81,4 +82,4 @@ async def reset_consumable(dev: Device, consumable_id: str) -> None:
 
     await cons.reset_consumable(consumable_id)
 
-    click.echo(f"Consumable {consumable_id} reset")
+    echo(f"Consumable {consumable_id} reset")
-- 
2.43.0


From 344e6125a6ec9b367d0de69410d37a4e946d490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:40 +0000
Subject: [PATCH 58/77] fix: fail if no device with the given alias is found

The cli exited with 0 without having done anything, and did not end at all if
the discovery raised an error (P32).
---
 kasa/cli/discover.py | 30 ++++++++++++++++++------------
 kasa/cli/main.py     |  3 +--
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index af367e3..7672300 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -369,17 +369,23 @@ async def find_dev_from_alias(
             found_event.set()
 
     async def do_discover():
-        for _ in range(1, attempts):
-            await Discover.discover(
-                target=target,
-                timeout=timeout,
-                credentials=credentials,
-                on_discovered=on_discovered,
-            )
-            if found_event.is_set():
-                break
-        found_event.set()
+        try:
+            for _ in range(1, attempts):
+                await Discover.discover(
+                    target=target,
+                    timeout=timeout,
+                    credentials=credentials,
+                    on_discovered=on_discovered,
+                )
+                if found_event.is_set():
+                    break
+        finally:
+            found_event.set()
 
-    asyncio.create_task(do_discover())
+    discover_task = asyncio.create_task(do_discover())
     await found_event.wait()
-    return found_device[0] if found_device else None
+    if found_device:
+        return found_device[0]
+    # Raises the error if the discovery failed
+    await discover_task
+    return None
diff --git a/kasa/cli/main.py b/kasa/cli/main.py
index 8ac0184..934b58e 100755
--- a/kasa/cli/main.py
+++ b/kasa/cli/main.py
@@ -354,8 +354,7 @@ async def cli(
             alias=alias, target=target, credentials=credentials
         )
         if not dev:
-            echo(f"No device with name {alias} found")
-            return
+            error(f"No device with name {alias} found")
         echo(f"Found hostname by alias: {dev.host}")
         device_updated = True
     else:  # host will be set
-- 
2.43.0


From bf9d55b3fcc45a7e2bbf8ab002ba736342dfb030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:40 +0000
Subject: [PATCH 59/77] fix: print the data of devices as it is in the cli

Names and values with square brackets were taken as markup and those with
colons as emojis, so parts were dropped or the command failed, and long lines
were wrapped within values (P32).
---
 kasa/cli/common.py   | 22 +++++++++++++++++-----
 kasa/cli/device.py   | 18 +++++++++++-------
 kasa/cli/discover.py |  4 ++--
 kasa/cli/feature.py  | 11 ++++++++---
 kasa/cli/usage.py    |  4 ++--
 5 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/kasa/cli/common.py b/kasa/cli/common.py
index d0ef9dc..292e6cd 100644
--- a/kasa/cli/common.py
+++ b/kasa/cli/common.py
@@ -28,7 +28,12 @@ pass_dev = click.make_pass_decorator(Device)  # type: ignore[type-abstract]
 
 
 try:
-    from rich import print as _echo
+    from rich import get_console
+    from rich.markup import escape
+
+    def _echo(message="", *, markup=False) -> None:
+        """Print a message without changing the data in it."""
+        get_console().print(message, markup=markup, emoji=False, soft_wrap=True)
 except ImportError:
     # Strip out rich formatting if rich is not installed
     # but only lower case tags to avoid stripping out
@@ -40,8 +45,8 @@ except ImportError:
         """Strip rich formatting from messages."""
 
         @wraps(echo_func)
-        def wrapper(message=None, *args, **kwargs) -> None:
-            if message is not None:
+        def wrapper(message=None, *args, markup=False, **kwargs) -> None:
+            if markup and message is not None:
                 message = rich_formatting.sub("", message)
             echo_func(message, *args, **kwargs)
 
@@ -49,9 +54,16 @@ except ImportError:
 
     _echo = _strip_rich_formatting(click.echo)
 
+    def escape(markup):
+        """Return the text as there is no markup to escape."""
+        return markup
+
 
 def echo(*args, **kwargs) -> None:
-    """Print a message."""
+    """Print a message.
+
+    The message is printed as it is unless *markup* is set.
+    """
     ctx = click.get_current_context().find_root()
     if "json" not in ctx.params or ctx.params["json"] is False:
         _echo(*args, **kwargs)
@@ -59,7 +71,7 @@ def echo(*args, **kwargs) -> None:
 
 def error(msg: str) -> NoReturn:
     """Print an error and exit."""
-    echo(f"[bold red]{msg}[/bold red]")
+    echo(f"[bold red]{escape(msg)}[/bold red]", markup=True)
     sys.exit(1)
 
 
diff --git a/kasa/cli/device.py b/kasa/cli/device.py
index cd92363..8d97eb4 100644
--- a/kasa/cli/device.py
+++ b/kasa/cli/device.py
@@ -16,6 +16,7 @@ from kasa.smart import SmartDevice
 from .common import (
     echo,
     error,
+    escape,
     pass_dev,
     pass_dev_or_child,
 )
@@ -36,7 +37,7 @@ async def state(ctx, dev: Device):
 
     verbose = ctx.parent.params.get("verbose", False) if ctx.parent else False
 
-    echo(f"[bold]== {dev.alias} - {dev.model} ==[/bold]")
+    echo(f"[bold]== {escape(f'{dev.alias} - {dev.model}')} ==[/bold]", markup=True)
     echo(f"Host: {dev.host}")
     echo(f"Port: {dev.port}")
     echo(f"Device state: {dev.is_on}")
@@ -58,12 +59,12 @@ async def state(ctx, dev: Device):
     _echo_all_features(dev.features, verbose=verbose)
 
     if verbose:
-        echo("\n[bold]== Modules ==[/bold]")
+        echo("\n[bold]== Modules ==[/bold]", markup=True)
         for module in dev.modules.values():
-            echo(f"[green]+ {module}[/green]")
+            echo(f"[green]+ {escape(str(module))}[/green]", markup=True)
 
     if dev.children:
-        echo("\n[bold]== Children ==[/bold]")
+        echo("\n[bold]== Children ==[/bold]", markup=True)
         for child in dev.children:
             _echo_all_features(
                 child.features,
@@ -72,13 +73,16 @@ async def state(ctx, dev: Device):
                 indent="\t",
             )
             if verbose:
-                echo(f"\n\t[bold]== Child {child.alias} Modules ==[/bold]")
+                echo(
+                    f"\n\t[bold]== Child {escape(str(child.alias))} Modules ==[/bold]",
+                    markup=True,
+                )
                 for module in child.modules.values():
-                    echo(f"\t[green]+ {module}[/green]")
+                    echo(f"\t[green]+ {escape(str(module))}[/green]", markup=True)
         echo()
 
     if verbose:
-        echo("\n\t[bold]== Protocol information ==[/bold]")
+        echo("\n\t[bold]== Protocol information ==[/bold]", markup=True)
         echo(f"\tCredentials hash:  {dev.credentials_hash}")
         echo()
         from .discover import _echo_discovery_info
diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index 7672300..ca4c297 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -287,7 +287,7 @@ async def config(ctx: click.Context) -> DeviceDict:
 
 
 def _echo_dictionary(discovery_info: dict) -> None:
-    echo("\t[bold]== Discovery information ==[/bold]")
+    echo("\t[bold]== Discovery information ==[/bold]", markup=True)
     for key, value in discovery_info.items():
         key_name = " ".join(x.capitalize() or "_" for x in key.split("_"))
         key_name_and_spaces = "{:<15}".format(key_name + ":")
@@ -314,7 +314,7 @@ def _echo_discovery_info(discovery_info: dict) -> None:
             ws = " " * (19 - len(label))
             echo(f"\t{label}:{ws}{value}")
 
-    echo("\t[bold]== Discovery Result ==[/bold]")
+    echo("\t[bold]== Discovery Result ==[/bold]", markup=True)
     _conditional_echo("Device Type", dr.device_type)
     _conditional_echo("Device Model", dr.device_model)
     _conditional_echo("Device Name", dr.device_name)
diff --git a/kasa/cli/feature.py b/kasa/cli/feature.py
index a4c739f..f1b0bb8 100644
--- a/kasa/cli/feature.py
+++ b/kasa/cli/feature.py
@@ -11,6 +11,7 @@ from kasa import Device, Feature
 from .common import (
     echo,
     error,
+    escape,
     pass_dev_or_child,
 )
 
@@ -28,7 +29,7 @@ def _echo_features(
             id_: feat for id_, feat in features.items() if feat.category == category
         }
 
-    echo(f"{indent}[bold]{title}[/bold]")
+    echo(f"{indent}[bold]{escape(title)}[/bold]", markup=True)
     for _, feat in features.items():
         try:
             echo(f"{indent}{feat}")
@@ -37,7 +38,11 @@ def _echo_features(
                 echo(f"{indent}\tCategory: {feat.category}")
                 echo(f"{indent}\tIcon: {feat.icon}")
         except Exception as ex:
-            echo(f"{indent}{feat.name} ({feat.id}): [red]got exception ({ex})[/red]")
+            echo(
+                f"{indent}{escape(feat.name)} ({feat.id}): "
+                f"[red]got exception ({escape(str(ex))})[/red]",
+                markup=True,
+            )
 
 
 def _echo_all_features(
@@ -45,7 +50,7 @@ def _echo_all_features(
 ) -> None:
     """Print out all features by category."""
     if title_prefix is not None:
-        echo(f"[bold]\n{indent}== {title_prefix} ==[/bold]")
+        echo(f"[bold]\n{indent}== {escape(title_prefix)} ==[/bold]", markup=True)
         echo()
     _echo_features(
         features,
diff --git a/kasa/cli/usage.py b/kasa/cli/usage.py
index c383f76..4fe173a 100644
--- a/kasa/cli/usage.py
+++ b/kasa/cli/usage.py
@@ -30,7 +30,7 @@ async def energy(dev: Device, year, month, erase):
 
     Daily and monthly data provided in CSV format.
     """
-    echo("[bold]== Energy ==[/bold]")
+    echo("[bold]== Energy ==[/bold]", markup=True)
     if not (energy := dev.modules.get(Module.Energy)):
         error("Device has no energy module.")
         return
@@ -84,7 +84,7 @@ async def usage(dev: Device, year, month, erase):
 
     Daily and monthly data provided in CSV format.
     """
-    echo("[bold]== Usage ==[/bold]")
+    echo("[bold]== Usage ==[/bold]", markup=True)
     usage = cast(Usage, dev.modules["usage"])
 
     if erase:
-- 
2.43.0


From 8a5672a296d733150d53135bfb28f5ca1db1259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:58 +0000
Subject: [PATCH 60/77] fix: make the turn on behavior and schedule commands of
 the cli callable

The options were applied below the decorator that adds the child options,
which dropped the latter, so that the commands always raised an error (P32).
---
 kasa/cli/light.py    | 2 +-
 kasa/cli/schedule.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index fcf8c0d..2790b47 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -188,10 +188,10 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
 
 
 @light.command()
-@pass_dev_or_child
 @click.option("--type", type=click.Choice(["soft", "hard"], case_sensitive=False))
 @click.option("--last", is_flag=True)
 @click.option("--preset", type=int)
+@pass_dev_or_child
 async def turn_on_behavior(dev: Device, type, last, preset):
     """Modify bulb turn-on behavior."""
     if dev.device_type is not Device.Type.Bulb or not isinstance(dev, IotBulb):
diff --git a/kasa/cli/schedule.py b/kasa/cli/schedule.py
index 96510d2..962983d 100644
--- a/kasa/cli/schedule.py
+++ b/kasa/cli/schedule.py
@@ -19,8 +19,8 @@ async def schedule(dev) -> None:
 
 
 @schedule.command(name="list")
-@pass_dev_or_child
 @click.argument("type", default="schedule")
+@pass_dev_or_child
 async def _schedule_list(dev, type):
     """Return the list of schedule actions for the given type."""
     sched = dev.modules[type]
@@ -34,8 +34,8 @@ async def _schedule_list(dev, type):
 
 
 @schedule.command(name="delete")
-@pass_dev_or_child
 @click.option("--id", type=str, required=True)
+@pass_dev_or_child
 async def delete_rule(dev, id):
     """Delete rule from device."""
     schedule = dev.modules["schedule"]
-- 
2.43.0


From 739801f4742e8faabb95e8ab5d5ce51e0a6b7d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:23 +0000
Subject: [PATCH 61/77] fix: report the time of the strip for its sockets

Sockets have no time module, so that their time and timezone raised a KeyError
and the cli could not show their state (P24/P32).
---
 kasa/iot/iotstrip.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index 59496b5..4ab94c7 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import logging
 from collections import defaultdict
-from datetime import datetime
+from datetime import datetime, tzinfo
 from typing import TYPE_CHECKING, Any
 
 from ..device_type import DeviceType
@@ -340,6 +340,18 @@ class IotStripPlug(IotPlug):
         self.protocol = parent.protocol  # Must use the same connection as the parent
         self._on_since: datetime | None = None
 
+    @property
+    @requires_update
+    def time(self) -> datetime:
+        """Return current time from the parent as sockets have no time module."""
+        return self._parent.time
+
+    @property
+    @requires_update
+    def timezone(self) -> tzinfo:
+        """Return the current timezone from the parent."""
+        return self._parent.timezone
+
     async def _initialize_modules(self) -> None:
         """Initialize modules not added in init."""
         if self.has_emeter:
-- 
2.43.0


From 2ca3679b9a3a533bcbbee04a3c61cbe1f8f8bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:10 +0000
Subject: [PATCH 62/77] fix: report the model of child devices without modules
 to query

---
 kasa/smart/smartdevice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 65d9428..1137157 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -608,7 +608,8 @@ class SmartDevice(Device):
         if self._last_update:
             return self.device_info.short_name
 
-        disco_model = str(self._info.get("device_model"))
+        # Info from the parent of a child device has model instead of device_model
+        disco_model = str(self._info.get("model", self._info.get("device_model")))
         long_name, _, _ = disco_model.partition("(")
         return long_name
 
-- 
2.43.0


From 91a9adf68ddcaf5737172353408e789457e28bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:10 +0000
Subject: [PATCH 63/77] fix: report the ssid of networks with names that are
 not utf-8

---
 kasa/smart/smartdevice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 1137157..2730daf 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -714,8 +714,8 @@ class SmartDevice(Device):
     def ssid(self) -> str:
         """Return ssid of the connected wifi ap."""
         ssid = self._info.get("ssid")
-        ssid = base64.b64decode(ssid).decode() if ssid else "No SSID"
-        return ssid
+        # SSIDs are arbitrary bytes that need not be valid utf-8
+        return base64.b64decode(ssid).decode(errors="replace") if ssid else "No SSID"
 
     @property
     def has_emeter(self) -> bool:
-- 
2.43.0


From 82948012b46a011f6a7ddb45c2315a9ed8c1d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:10 +0000
Subject: [PATCH 64/77] fix: format macs of hub children with colons

---
 kasa/smart/smartdevice.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 2730daf..e8e3ba0 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -688,7 +688,11 @@ class SmartDevice(Device):
     @property
     def mac(self) -> str:
         """Return the mac formatted with colons."""
-        return str(self._info.get("mac")).replace("-", ":")
+        mac = str(self._info.get("mac")).replace("-", ":")
+        # Devices connected to a hub report the mac without delimiters
+        if ":" not in mac and len(mac) == 12:
+            mac = ":".join(mac[i : i + 2] for i in range(0, 12, 2))
+        return mac
 
     @property
     def device_id(self) -> str:
-- 
2.43.0


From 218a26ba0a41fe45cbbd9ab679d88022bd27eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:01 +0000
Subject: [PATCH 65/77] fix: bind setting of the vacuum fan speed to its
 feature

---
 kasa/smart/modules/clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smart/modules/clean.py b/kasa/smart/modules/clean.py
index ad043e4..390796b 100644
--- a/kasa/smart/modules/clean.py
+++ b/kasa/smart/modules/clean.py
@@ -318,7 +318,7 @@ class Clean(SmartModule):
 
     async def set_fan_speed_preset(
         self, speed: str
-    ) -> Annotated[dict, FeatureAttribute]:
+    ) -> Annotated[dict, FeatureAttribute()]:
         """Set fan speed preset."""
         name_to_value = {x.name: x.value for x in FanSpeed}
         if speed not in name_to_value:
-- 
2.43.0


From 4d46027f93aca63fe361298168efd7d1f001c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:43 +0000
Subject: [PATCH 66/77] fix: ask to confirm the timezone only without an exact
 match

---
 kasa/cli/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kasa/cli/time.py b/kasa/cli/time.py
index e2cb4c1..bb42c2f 100644
--- a/kasa/cli/time.py
+++ b/kasa/cli/time.py
@@ -145,6 +145,8 @@ async def _get_timezone(dev, timezone, skip_confirm) -> zoneinfo.ZoneInfo:
         if not matches:
             error(f"Device cannot support {timezone} timezone.")
         first = matches[0]
+        if first == timezone:
+            return tzinfo
         msg = (
             f"An exact match for {timezone} could not be found, "
             + f"timezone will be set to {first}"
-- 
2.43.0


From 35064d6602b9a16dc769dc3d1cca3a030a59b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:27 +0000
Subject: [PATCH 67/77] fix: honor --verbose of the cli for grouped and implied
 commands

---
 kasa/cli/device.py  | 2 +-
 kasa/cli/feature.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/cli/device.py b/kasa/cli/device.py
index 8d97eb4..457b9d8 100644
--- a/kasa/cli/device.py
+++ b/kasa/cli/device.py
@@ -35,7 +35,7 @@ async def state(ctx, dev: Device):
     """Print out device state and versions."""
     from .feature import _echo_all_features
 
-    verbose = ctx.parent.params.get("verbose", False) if ctx.parent else False
+    verbose = ctx.find_root().params.get("verbose", False)
 
     echo(f"[bold]== {escape(f'{dev.alias} - {dev.model}')} ==[/bold]", markup=True)
     echo(f"Host: {dev.host}")
diff --git a/kasa/cli/feature.py b/kasa/cli/feature.py
index f1b0bb8..4e08334 100644
--- a/kasa/cli/feature.py
+++ b/kasa/cli/feature.py
@@ -102,7 +102,7 @@ async def feature(
     If only *name* is given, the value of named feature is returned.
     If both *name* and *value* are set, the described setting is changed.
     """
-    verbose = ctx.parent.params.get("verbose", False) if ctx.parent else False
+    verbose = ctx.find_root().params.get("verbose", False)
 
     if not name:
         _echo_all_features(dev.features, verbose=verbose, indent="")
-- 
2.43.0


From 528519a234e6708488d599809c4da274070c089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:29 +0000
Subject: [PATCH 68/77] fix: keep the single answers when dumping a device that
 cannot answer all at once

---
 devtools/dump_devinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/devtools/dump_devinfo.py b/devtools/dump_devinfo.py
index bbe1e81..7826c44 100644
--- a/devtools/dump_devinfo.py
+++ b/devtools/dump_devinfo.py
@@ -439,7 +439,7 @@ async def get_legacy_fixture(
                 click.echo(click.style(f"FAIL {resp['err_msg']}", fg="red"))
             else:
                 click.echo(click.style("OK", fg="green"))
-                successes.append((test_call, info))
+                successes.append((test_call, resp))
         finally:
             await protocol.close()
 
@@ -447,7 +447,7 @@ async def get_legacy_fixture(
     final: dict = defaultdict(defaultdict)
     for succ, resp in successes:
         final_query[succ.module][succ.method] = {}
-        final[succ.module][succ.method] = resp
+        final[succ.module].update(resp)
 
     final = default_to_regular(final)
 
-- 
2.43.0


From e39dc2af84a42e515afcc59da308b17a9f751838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:29 +0000
Subject: [PATCH 69/77] fix: name fixtures of devices without a region as the
 others

---
 devtools/dump_devinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/devtools/dump_devinfo.py b/devtools/dump_devinfo.py
index 7826c44..c5a721e 100644
--- a/devtools/dump_devinfo.py
+++ b/devtools/dump_devinfo.py
@@ -837,7 +837,7 @@ def get_smart_child_fixture(response, model_info, folder, suffix):
     hw_version = model_info.hardware_version
     fw_version = model_info.firmware_version
     model = model_info.long_name
-    if model_info.region is not None:
+    if model_info.region:
         model = f"{model}({model_info.region})"
     save_filename = f"{model}_{hw_version}_{fw_version}"
     return FixtureResult(
@@ -1082,7 +1082,7 @@ async def get_smart_fixtures(
     hw_version = model_info.hardware_version
     sw_version = model_info.firmware_version
     model = model_info.long_name
-    if model_info.region is not None:
+    if model_info.region:
         model = f"{model}({model_info.region})"
 
     save_filename = f"{model}_{hw_version}_{sw_version}"
-- 
2.43.0


From b8d85309ee0c1db038faac60f1493ae5804dd134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:51 +0000
Subject: [PATCH 70/77] fix: redact the answers of same model children when
 dumping a device

---
 devtools/dump_devinfo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/devtools/dump_devinfo.py b/devtools/dump_devinfo.py
index c5a721e..9d5a00b 100644
--- a/devtools/dump_devinfo.py
+++ b/devtools/dump_devinfo.py
@@ -1057,7 +1057,9 @@ async def get_smart_fixtures(
         # same model child device
         else:
             cd = final.setdefault("child_devices", {})
-            cd[scrubbed_child_id] = response
+            cd[scrubbed_child_id] = redact_data(
+                response, _wrap_redactors(SMART_REDACTORS)
+            )
 
     discovery_result = None
     if discovery_info:
-- 
2.43.0


From 0fd79a56759e3633d697e8f71e6dd457bd381dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:05 +0000
Subject: [PATCH 71/77] fix: dump devices with given discovery info like
 discovered ones

---
 devtools/dump_devinfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/devtools/dump_devinfo.py b/devtools/dump_devinfo.py
index 9d5a00b..31916c7 100644
--- a/devtools/dump_devinfo.py
+++ b/devtools/dump_devinfo.py
@@ -316,7 +316,7 @@ async def cli(
                 basedir,
                 autosave,
                 device.protocol,
-                discovery_info=dr.to_dict(),
+                discovery_info={"error_code": 0, "result": dr.to_dict()},
                 batch_size=batch_size,
             )
         elif device_family and encrypt_type:
-- 
2.43.0


From a8c9df17f379085011a50cecee45c309245a2206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 72/77] fix: dump devices whose children do not all answer

---
 devtools/dump_devinfo.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/devtools/dump_devinfo.py b/devtools/dump_devinfo.py
index 31916c7..ce3e0ee 100644
--- a/devtools/dump_devinfo.py
+++ b/devtools/dump_devinfo.py
@@ -859,6 +859,12 @@ def scrub_child_device_ids(
         if device_id != ""
     }
 
+    def _scrub_listed(child_id: str) -> str:
+        # The parent also lists children that did not answer
+        return scrubbed_child_id_map.setdefault(
+            child_id, f"SCRUBBED_CHILD_DEVICE_ID_{len(scrubbed_child_id_map) + 1}"
+        )
+
     for child_id, response in child_responses.items():
         scrubbed_child_id = scrubbed_child_id_map[child_id]
         # scrub the device id in the child's get info response
@@ -882,22 +888,24 @@ def scrub_child_device_ids(
     if gc := main_response.get("get_child_device_component_list"):
         for child in gc["child_component_list"]:
             device_id = child["device_id"]
-            child["device_id"] = scrubbed_child_id_map[device_id]
-        for child in main_response["get_child_device_list"]["child_device_list"]:
+            child["device_id"] = _scrub_listed(device_id)
+    if gl := main_response.get("get_child_device_list"):
+        for child in gl["child_device_list"]:
             device_id = child["device_id"]
-            child["device_id"] = scrubbed_child_id_map[device_id]
+            child["device_id"] = _scrub_listed(device_id)
 
     # Scrub the device ids in the parent for the smart camera protocol
     if gc := main_response.get("getChildDeviceComponentList"):
         for child in gc["child_component_list"]:
             device_id = child["device_id"]
-            child["device_id"] = scrubbed_child_id_map[device_id]
-        for child in main_response["getChildDeviceList"]["child_device_list"]:
+            child["device_id"] = _scrub_listed(device_id)
+    if gl := main_response.get("getChildDeviceList"):
+        for child in gl["child_device_list"]:
             if device_id := child.get("device_id"):
-                child["device_id"] = scrubbed_child_id_map[device_id]
+                child["device_id"] = _scrub_listed(device_id)
                 continue
             elif dev_id := child.get("dev_id"):
-                child["dev_id"] = scrubbed_child_id_map[dev_id]
+                child["dev_id"] = _scrub_listed(dev_id)
                 continue
             _LOGGER.error("Could not find a device id for the child device: %s", child)
 
-- 
2.43.0


From 598f71c93b89f6ab29f29336bfc4a8070c6cd737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:20 +0000
Subject: [PATCH 73/77] fix: create the http client outside of a running event
 loop

---
 kasa/httpclient.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kasa/httpclient.py b/kasa/httpclient.py
index fa35b49..40da8a3 100644
--- a/kasa/httpclient.py
+++ b/kasa/httpclient.py
@@ -38,7 +38,6 @@ class HttpClient:
     def __init__(self, config: DeviceConfig) -> None:
         self._config = config
         self._client_session: aiohttp.ClientSession | None = None
-        self._jar = aiohttp.CookieJar(unsafe=True, quote_cookie=False)
         self._last_url = URL(f"http://{self._config.host}/")
 
         self._wait_between_requests = 0.0
-- 
2.43.0


From 0dec2803b69b1697045ae3fa04a38f6fd985e8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:20 +0000
Subject: [PATCH 74/77] fix: decode KLAP captures with handshakes and negative
 sequence numbers

---
 devtools/parse_pcap_klap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/devtools/parse_pcap_klap.py b/devtools/parse_pcap_klap.py
index 848e33d..6f92bd3 100755
--- a/devtools/parse_pcap_klap.py
+++ b/devtools/parse_pcap_klap.py
@@ -33,8 +33,8 @@ def _get_seq_from_query(packet):
     query = packet.http.get("request_uri_query")
     if query is None:
         raise Exception("No request_uri_query found")
-    # use regex to get: seq=(\d+)
-    seq = re.search(r"seq=(\d+)", query)
+    # use regex to get: seq=(-?\d+), the number is signed
+    seq = re.search(r"seq=(-?\d+)", query)
     if seq is not None:
         return int(seq.group(1))
     raise Exception("Unable to find sequence number")
@@ -260,8 +260,6 @@ def main(
             if uri is None:
                 continue
 
-            operator.seq = _get_seq_from_query(packet)
-
             # Windows and linux file_data attribute returns different
             # pretty format so get the raw field value.
             data = packet.http.get_field_value("file_data", raw=True)
@@ -270,6 +268,8 @@ def main(
                 case "/app/request":
                     if packet.ip.dst != device_ip:
                         continue
+                    # Only the requests have a sequence number
+                    operator.seq = _get_seq_from_query(packet)
                     message = bytes.fromhex(data)
                     try:
                         plaintext = operator.decrypt(message)
-- 
2.43.0


From d281802d69325aaf71332037ca3c28546fefa940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:20 +0000
Subject: [PATCH 75/77] fix: parse UDP payloads of captures and print what was
 found

---
 devtools/parse_pcap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/devtools/parse_pcap.py b/devtools/parse_pcap.py
index f218975..6878468 100644
--- a/devtools/parse_pcap.py
+++ b/devtools/parse_pcap.py
@@ -4,7 +4,7 @@ import json
 from collections import Counter, defaultdict
 from pprint import pformat as pf
 
-import click
+import asyncclick as click
 import dpkt
 from dpkt.ethernet import ETH_TYPE_IP, Ethernet
 
@@ -23,7 +23,7 @@ def read_payloads_from_file(file):
         ip = eth.ip
         if ip.p == 6:
             transport = ip.tcp
-        elif ip == 17:
+        elif ip.p == 17:
             transport = ip.udp
         else:
             continue
@@ -34,7 +34,8 @@ def read_payloads_from_file(file):
         data = transport.data
 
         try:
-            decrypted = XorEncryption.decrypt(data[4:])
+            # Only the payloads sent over tcp are prefixed with their length
+            decrypted = XorEncryption.decrypt(data[4:] if ip.p == 6 else data)
         except Exception as ex:
             echo(f"[red]Unable to decrypt the data, ignoring: {ex}[/red]")
             continue
-- 
2.43.0


From 2fc795484c87a2cdb33658b24669008cbcc4555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:20 +0000
Subject: [PATCH 76/77] fix: keep children paired with their components when
 updating fixtures

---
 devtools/update_fixtures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/devtools/update_fixtures.py b/devtools/update_fixtures.py
index 13b9996..9b3216c 100644
--- a/devtools/update_fixtures.py
+++ b/devtools/update_fixtures.py
@@ -53,8 +53,11 @@ def _child_device_id_update(info) -> bool:
         child_component_list = info["get_child_device_component_list"][
             "child_component_list"
         ]
+        components = {comp["device_id"]: comp for comp in child_component_list}
         for index, child_device in enumerate(child_device_list):
-            child_component = child_component_list[index]
+            child_component = components.get(
+                child_device["device_id"], child_component_list[index]
+            )
             if "SCRUBBED" not in child_device["device_id"]:
                 dev_id = f"SCRUBBED_CHILD_DEVICE_ID_{index + 1}"
                 click.echo(
-- 
2.43.0


From 2ff4ca198c0c032e9833e1bd3928ca56a7bf80ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:28 +0000
Subject: [PATCH 77/77] fix: query what a child device left unanswered in a
 multi request

A device stops processing a multi request at the first error, so the methods
after it were silently missing from the answers of child devices.
---
 kasa/protocols/smartcamprotocol.py | 21 +++++++++++++++++++++
 kasa/protocols/smartprotocol.py    | 21 +++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index a77c70f..279c974 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -272,7 +272,28 @@ class _ChildCameraProtocolWrapper(SmartProtocol):
             )
             response_dict[method] = response_data.get("result")
 
+        # Multi requests don't continue after errors so requery any missing.
+        for index_id in range(len(responses), len(requests)):
+            method = methods[index_id]
+            response_dict[method] = await self._query_missing(
+                method, requests[index_id]["params"], retry_count
+            )
+
         return response_dict
 
+    async def _query_missing(self, method: str, params: dict, retry_count: int) -> Any:
+        """Query a method which was not answered in a multi request."""
+        multiple_request = {
+            "multipleRequest": {
+                "requests": [{"method": "controlChild", "params": params}]
+            }
+        }
+        responses = await self._protocol.query(multiple_request, retry_count)
+        response = responses["multipleRequest"]["responses"][0]
+        result = response.get("result")
+        response_data = result["response_data"] if result else response
+        self._handle_response_error_code(response_data, method, raise_on_error=False)
+        return response_data.get("result")
+
     async def close(self) -> None:
         """Do nothing as the parent owns the protocol."""
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 7a1f8b7..74fad3d 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -530,11 +530,32 @@ class _ChildProtocolWrapper(SmartProtocol):
                         multi_response, method, raise_on_error=False
                     )
                     ret_val[method] = multi_response.get("result")
+                # Multi requests don't continue after errors so requery any missing.
+                for req in (params or {}).get("requests", []):
+                    if (method := req["method"]) not in ret_val:
+                        ret_val[method] = await self._query_missing(
+                            method, req.get("params"), retry_count
+                        )
                 return ret_val
 
             self._handle_response_error_code(response_data, "control_child")
 
         return {method: result}
 
+    async def _query_missing(
+        self, method: str, params: dict | None, retry_count: int
+    ) -> Any:
+        """Query a method which was not answered in a multi request."""
+        wrapped_payload = {
+            "control_child": {
+                "device_id": self._device_id,
+                "requestData": {"method": method, "params": params},
+            }
+        }
+        response = await self._protocol.query(wrapped_payload, retry_count)
+        response_data = response["control_child"]["responseData"]
+        self._handle_response_error_code(response_data, method, raise_on_error=False)
+        return response_data.get("result")
+
     async def close(self) -> None:
         """Do nothing as the parent owns the protocol."""
-- 
2.43.0

