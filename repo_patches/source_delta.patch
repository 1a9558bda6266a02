From 82f077bb42287a6dcc87058555a972443a5f5455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 01/48] fix: classify aiohttp total timeouts as TimeoutError so
 they are retried

---
 kasa/httpclient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/httpclient.py b/kasa/httpclient.py
index 31d8dfb..e465616 100644
--- a/kasa/httpclient.py
+++ b/kasa/httpclient.py
@@ -144,7 +144,9 @@ class HttpClient:
             raise _ConnectionError(
                 f"Device connection error: {self._config.host}: {ex}", ex
             ) from ex
-        except (aiohttp.ServerTimeoutError, TimeoutError) as ex:
+        # asyncio.TimeoutError is raised by aiohttp when the total timeout expires,
+        # the library's own TimeoutError is a subclass of it.
+        except (aiohttp.ServerTimeoutError, asyncio.TimeoutError) as ex:  # noqa: UP041
             raise TimeoutError(
                 "Unable to query the device, "
                 + f"timed out: {self._config.host}: {ex}",
-- 
2.43.0


From 908e77cee29edff20520152c0d318b11240840f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 02/48] fix: use the secure passthrough again after a digest
 login

A camera that was once logged in with the less secure login kept sending
unencrypted requests even when a later login was the digest login.
---
 kasa/transports/sslaestransport.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kasa/transports/sslaestransport.py b/kasa/transports/sslaestransport.py
index eeb2980..1622bde 100644
--- a/kasa/transports/sslaestransport.py
+++ b/kasa/transports/sslaestransport.py
@@ -473,6 +473,8 @@ class SslAesTransport(BaseTransport):
         lsk = self.generate_encryption_token("lsk", local_nonce, server_nonce, pwd_hash)
         ivb = self.generate_encryption_token("ivb", local_nonce, server_nonce, pwd_hash)
         self._encryption_session = AesEncyptionSession(lsk, ivb)
+        # A previous login may have been a less secure one
+        self._send_secure = True
         self._state = TransportState.ESTABLISHED
         _LOGGER.debug("Handshake2 complete ...")
 
-- 
2.43.0


From 2afc35c6be8a0af0508c879909357188bf6a51d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 03/48] fix: report unknown error codes of ssl transport
 devices as device errors

They escaped as ValueError.
---
 kasa/transports/ssltransport.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index e4fef9a..8c1c9b7 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -117,7 +117,14 @@ class SslTransport(BaseTransport):
 
     async def _handle_response_error_code(self, resp_dict: Any, msg: str) -> None:
         """Handle response errors to request reauth etc."""
-        error_code = SmartErrorCode(resp_dict.get("error_code"))  # type: ignore[arg-type]
+        error_code_raw = resp_dict.get("error_code")
+        try:
+            error_code = SmartErrorCode.from_int(error_code_raw)
+        except ValueError:
+            _LOGGER.warning(
+                "Device %s received unknown error code: %s", self._host, error_code_raw
+            )
+            error_code = SmartErrorCode.INTERNAL_UNKNOWN_ERROR
         if error_code == SmartErrorCode.SUCCESS:
             return
 
-- 
2.43.0


From d7a11cabf80c69a6ad4cf3184d4b73c3e43805c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 04/48] fix: retry connection errors and timeouts of the
 default login over ssl transport

They were wrapped into a KasaException, which is not retried.
---
 kasa/transports/ssltransport.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index 8c1c9b7..3a22fb0 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -25,6 +25,8 @@ from kasa.exceptions import (
     DeviceError,
     KasaException,
     SmartErrorCode,
+    TimeoutError,
+    _ConnectionError,
     _RetryableError,
 )
 from kasa.httpclient import HttpClient
@@ -187,7 +189,7 @@ class SslTransport(BaseTransport):
                     "%s: logged in with default credentials",
                     self._host,
                 )
-            except AuthenticationError:
+            except (AuthenticationError, _ConnectionError, TimeoutError):
                 raise
             except Exception as ex:
                 raise KasaException(
-- 
2.43.0


From aabc8e4149125db0f062d02bd778fecb4b858d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 05/48] fix: report unexpected device responses as
 KasaException

Malformed answers escaped from query() as KeyError, TypeError, AttributeError
and the like, leaving the transport's session as it was.
---
 kasa/protocols/iotprotocol.py   | 12 ++++++++++++
 kasa/protocols/smartprotocol.py | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/kasa/protocols/iotprotocol.py b/kasa/protocols/iotprotocol.py
index 7ca02e0..980b7bc 100755
--- a/kasa/protocols/iotprotocol.py
+++ b/kasa/protocols/iotprotocol.py
@@ -132,6 +132,18 @@ class IotProtocol(BaseProtocol):
                     ex,
                 )
                 raise ex
+            except Exception as ex:
+                # The device responded with something unexpected
+                await self._transport.reset()
+                _LOGGER.debug(
+                    "Unable to handle the response from device: %s, not retrying: %s",
+                    self._host,
+                    ex,
+                )
+                raise KasaException(
+                    f"Unable to handle the response from device: {self._host}: {ex}",
+                    ex,
+                ) from ex
 
         # make mypy happy, this should never be reached..
         raise KasaException("Query reached somehow to unreachable")
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 5539de7..2061766 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -194,6 +194,18 @@ class SmartProtocol(BaseProtocol):
                     ex,
                 )
                 raise ex
+            except Exception as ex:
+                # The device responded with something unexpected
+                await self._transport.reset()
+                _LOGGER.debug(
+                    "Unable to handle the response from device: %s, not retrying: %s",
+                    self._host,
+                    ex,
+                )
+                raise KasaException(
+                    f"Unable to handle the response from device: {self._host}: {ex}",
+                    ex,
+                ) from ex
 
         # make mypy happy, this should never be reached..
         raise KasaException("Query reached somehow to unreachable")
-- 
2.43.0


From eadac3d431ca5aca2f20ca576cb4c41fe8158097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 06/48] fix: answer every method completely when batching is
 disabled

Methods that are never batched were dropped, lists were not completed and
methods without a result failed.
---
 kasa/protocols/smartprotocol.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 2061766..09749d6 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -233,14 +233,18 @@ class SmartProtocol(BaseProtocol):
         step = self._multi_request_batch_size
         if step == 1:
             # If step is 1 do not send request batches
-            for request in multi_requests:
-                method = request["method"]
-                req = self.get_smart_request(method, request.get("params"))
+            for method, params in requests.items():
+                req = self.get_smart_request(method, params)
                 resp = await self._transport.send(req)
                 self._handle_response_error_code(
                     resp, method, raise_on_error=raise_on_error
                 )
-                multi_result[method] = resp["result"]
+                result = resp.get("result")
+                if iterate_list_pages and result:
+                    await self._handle_response_lists(
+                        result, method, params, retry_count=retry_count
+                    )
+                multi_result[method] = result
             return multi_result
 
         for batch_num, i in enumerate(range(0, end, step)):
-- 
2.43.0


From 41afc1129740c4859987f8c5d32456bcc76ed683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 07/48] fix: do not send empty batches

Methods that have to be sent individually were counted as batched ones.
---
 kasa/protocols/smartprotocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 09749d6..fb15645 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -247,7 +247,7 @@ class SmartProtocol(BaseProtocol):
                 multi_result[method] = result
             return multi_result
 
-        for batch_num, i in enumerate(range(0, end, step)):
+        for batch_num, i in enumerate(range(0, len(multi_requests), step)):
             requests_step = multi_requests[i : i + step]
 
             smart_params = {"requests": requests_step}
-- 
2.43.0


From b8f0b677243dc646677c0bd294f0c3ee3f0ec675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 08/48] fix: complete lists of methods that had to be queried
 individually

---
 kasa/protocols/smartprotocol.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index fb15645..c570c4f 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -328,7 +328,12 @@ class SmartProtocol(BaseProtocol):
                 self._handle_response_error_code(
                     resp, method, raise_on_error=raise_on_error
                 )
-                multi_result[method] = resp.get("result")
+                result = resp.get("result")
+                if iterate_list_pages and result:
+                    await self._handle_response_lists(
+                        result, method, params, retry_count=retry_count
+                    )
+                multi_result[method] = result
         return multi_result
 
     async def _execute_query(
-- 
2.43.0


From 290783baded8841445e884e70674fc8e18d6c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 09/48] fix: report unusable answers of children as errors of
 the library

An envelope the camera hub could not pass on failed with a KeyError, an
empty answer to several methods was returned as answer to multipleRequest.
---
 kasa/protocols/smartcamprotocol.py | 17 +++++++++++++++--
 kasa/protocols/smartprotocol.py    | 13 +++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index 9bf40f7..ce7100d 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -217,7 +217,16 @@ class _ChildCameraProtocolWrapper(SmartProtocol):
 
     async def query(self, request: str | dict, retry_count: int = 3) -> dict:
         """Wrap request inside controlChild envelope."""
-        return await self._query(request, retry_count)
+        try:
+            return await self._query(request, retry_count)
+        except KasaException:
+            raise
+        except Exception as ex:
+            # The child responded with something unexpected
+            raise KasaException(
+                f"Unable to handle the response from child of {self._host}: {ex}",
+                ex,
+            ) from ex
 
     async def _query(self, request: str | dict, retry_count: int = 3) -> dict:
         """Wrap request inside controlChild envelope."""
@@ -249,8 +258,12 @@ class _ChildCameraProtocolWrapper(SmartProtocol):
         raise_on_error = len(requests) == 1
 
         for index_id, response in enumerate(responses):
-            response_data = response["result"]["response_data"]
             method = methods[index_id]
+            if response.get("error_code") and not response.get("result"):
+                # The hub could not pass the request on to the child
+                response_data = response
+            else:
+                response_data = response["result"]["response_data"]
             self._handle_response_error_code(
                 response_data, method, raise_on_error=raise_on_error
             )
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index c570c4f..5fadd5c 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -503,7 +503,16 @@ class _ChildProtocolWrapper(SmartProtocol):
 
     async def query(self, request: str | dict, retry_count: int = 3) -> dict:
         """Wrap request inside control_child envelope."""
-        return await self._query(request, retry_count)
+        try:
+            return await self._query(request, retry_count)
+        except KasaException:
+            raise
+        except Exception as ex:
+            # The child responded with something unexpected
+            raise KasaException(
+                f"Unable to handle the response from child of {self._host}: {ex}",
+                ex,
+            ) from ex
 
     async def _query(self, request: str | dict, retry_count: int = 3) -> dict:
         """Wrap request inside control_child envelope."""
@@ -524,7 +533,7 @@ class _ChildProtocolWrapper(SmartProtocol):
         # Unwrap responseData for control_child
         if result and (response_data := result.get("responseData")):
             result = response_data.get("result")
-            if result and (multi_responses := result.get("responses")):
+            if result and (multi_responses := result.get("responses")) is not None:
                 ret_val = {}
                 for multi_response in multi_responses:
                     method = multi_response["method"]
-- 
2.43.0


From 0255b8876a9d79ed2af6a064fad0fa89e96a6198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 10/48] fix: keep data of child modules that are not queried in
 every update

Modules with an update interval lost their data with the next update of
the child.
---
 kasa/smart/smartchilddevice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/smartchilddevice.py b/kasa/smart/smartchilddevice.py
index 3f730f0..ee192b9 100644
--- a/kasa/smart/smartchilddevice.py
+++ b/kasa/smart/smartchilddevice.py
@@ -101,7 +101,8 @@ class SmartChildDevice(SmartDevice):
                 resp = await self._handle_modular_update_error(
                     ex, first_update, ", ".join(mod.name for mod in module_queries), req
                 )
-            self._last_update = resp
+            # Keep the data of the modules that were not queried this time
+            self._last_update = {**self._last_update, **resp}
 
         for module in self.modules.values():
             await self._handle_module_post_update(
-- 
2.43.0


From c661351b23028d4e577284d4151f11bfa88dd611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 11/48] fix: negotiate again after a failed first update of
 smart devices

A failing first update left the device unusable, as the negotiation and
module setup were never repeated. An error code for component_nego is
reported as library error.
---
 kasa/smart/smartdevice.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 2e2dc7c..e8db71e 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -224,7 +224,9 @@ class SmartDevice(Device):
         self._info = self._try_get_response(resp, "get_device_info")
 
         # Create our internal presentation of available components
-        self._components_raw = cast(ComponentsRaw, resp["component_nego"])
+        self._components_raw = cast(
+            ComponentsRaw, self._try_get_response(resp, "component_nego")
+        )
 
         self._components = self._parse_components(self._components_raw)
 
@@ -265,7 +267,6 @@ class SmartDevice(Device):
 
         first_update = self._last_update_time is None
         now = time.monotonic()
-        self._last_update_time = now
 
         if first_update:
             await self._negotiate()
@@ -274,6 +275,9 @@ class SmartDevice(Device):
             if cloud_mod := self.modules.get(Module.Cloud):
                 await self._handle_module_post_update(cloud_mod, now, had_query=True)
 
+        # Only set after a successful negotiation, as it has to be repeated otherwise
+        self._last_update_time = now
+
         resp = await self._modular_update(first_update, now)
 
         children_changed = await self._update_children_info()
-- 
2.43.0


From f0ce50fd2ac0f05b38a8848c8f5c83b4ce9a1c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:48 +0000
Subject: [PATCH 12/48] fix: update children of hubs despite failing components
 or children

An error answer to the component list or a child that cannot be created
made the whole update fail.
---
 kasa/smart/modules/childdevice.py |  4 +++-
 kasa/smart/smartdevice.py         | 23 +++++++++++++++++++----
 kasa/smartcam/smartcamdevice.py   | 10 +++++++---
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/kasa/smart/modules/childdevice.py b/kasa/smart/modules/childdevice.py
index e816e3f..605e214 100644
--- a/kasa/smart/modules/childdevice.py
+++ b/kasa/smart/modules/childdevice.py
@@ -51,6 +51,8 @@ class ChildDevice(SmartModule):
     def query(self) -> dict:
         """Query to execute during the update cycle."""
         q = super().query()
-        if self._device.device_type is DeviceType.Hub:
+        # Children of other devices do not change, but they could be missing yet if the
+        # components could not be queried earlier
+        if self._device.device_type is DeviceType.Hub or not self._device.children:
             q["get_child_device_component_list"] = None
         return q
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index e8db71e..b4dc6e2 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -126,7 +126,19 @@ class SmartDevice(Device):
                 if child_id in existing_child_ids:
                     continue
 
-                child = await self._try_create_child(info, child_components)
+                try:
+                    child = await self._try_create_child(info, child_components)
+                except Exception as ex:
+                    # Leave out the child, but keep on updating its siblings. It
+                    # will be tried again on the next update.
+                    _LOGGER.error(
+                        "Error creating child device %s for %s: %s",
+                        child_id,
+                        self.host,
+                        ex,
+                    )
+                    continue
+
                 if child:
                     _LOGGER.debug("Created child device %s for %s", child, self.host)
                     changed = True
@@ -242,9 +254,12 @@ class SmartDevice(Device):
         if child_info := self._try_get_response(
             self._last_update, "get_child_device_list", {}
         ):
-            changed = await self._create_delete_children(
-                child_info, self._last_update["get_child_device_component_list"]
-            )
+            if child_components := self._try_get_response(
+                self._last_update, "get_child_device_component_list", {}
+            ):
+                changed = await self._create_delete_children(
+                    child_info, child_components
+                )
 
             for info in child_info["child_device_list"]:
                 child_id = info.get("device_id")
diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index 3beda36..a5dfdd7 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -85,9 +85,12 @@ class SmartCamDevice(SmartDevice):
         if child_info := self._try_get_response(
             self._last_update, "getChildDeviceList", {}
         ):
-            changed = await self._create_delete_children(
-                child_info, self._last_update["getChildDeviceComponentList"]
-            )
+            if child_components := self._try_get_response(
+                self._last_update, "getChildDeviceComponentList", {}
+            ):
+                changed = await self._create_delete_children(
+                    child_info, child_components
+                )
 
             for info in child_info["child_device_list"]:
                 child_id = info.get("device_id")
@@ -105,6 +108,7 @@ class SmartCamDevice(SmartDevice):
         """Initialize a smart child device attached to a smartcam device."""
         child_id = info["device_id"]
         child_protocol = _ChildCameraProtocolWrapper(child_id, self.protocol)
+        initial_response: dict | None = None
         try:
             initial_response = await child_protocol.query(
                 {"get_connect_cloud_state": None}
-- 
2.43.0


From 118e6045b16aa6d5d40b18f7a4701d6a2a499791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:46 +0000
Subject: [PATCH 13/48] fix: do not fail updates of devices when features need
 missing data

A module without data made the whole first update fail, and due to the
then duplicate features all following updates, too.
---
 kasa/smart/smartchilddevice.py  |  2 ++
 kasa/smart/smartdevice.py       | 28 ++++++++++++++++++++++++++--
 kasa/smartcam/smartcamdevice.py |  8 +++-----
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/kasa/smart/smartchilddevice.py b/kasa/smart/smartchilddevice.py
index ee192b9..59bfdf3 100644
--- a/kasa/smart/smartchilddevice.py
+++ b/kasa/smart/smartchilddevice.py
@@ -114,6 +114,8 @@ class SmartChildDevice(SmartDevice):
         # We make here an assumption that every device has at least a single feature.
         if not self._features:
             await self._initialize_features()
+        else:
+            self._initialize_module_features()
 
     @classmethod
     async def create(
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index b4dc6e2..f4f9295 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -76,6 +76,7 @@ class SmartDevice(Device):
         self._on_since: datetime | None = None
         self._info: dict[str, Any] = {}
         self._logged_missing_child_ids: set[str] = set()
+        self._modules_with_features: set[str] = set()
 
     async def _initialize_children(self) -> None:
         """Initialize children for power strips."""
@@ -311,6 +312,8 @@ class SmartDevice(Device):
         # We make here an assumption that every device has at least a single feature.
         if not self._features:
             await self._initialize_features()
+        else:
+            self._initialize_module_features()
 
         if _LOGGER.isEnabledFor(logging.DEBUG):
             updated = self._last_update if first_update else resp
@@ -579,8 +582,29 @@ class SmartDevice(Device):
                 )
             )
 
-        for module in self.modules.values():
-            module._initialize_features()
+        self._initialize_module_features()
+
+    def _initialize_module_features(self) -> None:
+        """Initialize the features of the modules.
+
+        Modules that need data which could not be queried are initialized after a
+        later update.
+        """
+        for name, module in self.modules.items():
+            if name in self._modules_with_features:
+                continue
+            try:
+                module._initialize_features()
+            except Exception as ex:
+                _LOGGER.debug(
+                    "Unable to initialize features of %s for %s: %s",
+                    name,
+                    self.host,
+                    ex,
+                )
+                module._module_features.clear()
+                continue
+            self._modules_with_features.add(name)
             for feat in module._module_features.values():
                 self._add_feature(feat)
 
diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index a5dfdd7..9c0312f 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -183,10 +183,7 @@ class SmartCamDevice(SmartDevice):
 
     async def _initialize_features(self) -> None:
         """Initialize device features."""
-        for module in self.modules.values():
-            module._initialize_features()
-            for feat in module._module_features.values():
-                self._add_feature(feat)
+        self._initialize_module_features()
 
     async def _query_setter_helper(
         self, method: str, module: str, section: str, params: dict | None = None
@@ -218,7 +215,8 @@ class SmartCamDevice(SmartDevice):
         self._update_internal_info(resp)
 
         self._components_raw = cast(
-            ComponentsRaw, resp["getAppComponentList"]["app_component"]
+            ComponentsRaw,
+            self._try_get_response(resp, "getAppComponentList")["app_component"],
         )
         self._components = self._parse_components(self._components_raw)
 
-- 
2.43.0


From 4ebbf9da2d1cc5299057dc4350998bde24ae6f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:14 +0000
Subject: [PATCH 14/48] fix: report legacy devices of unsupported types as
 unsupported

They raised a KeyError when connecting and were lost in discovery.
---
 kasa/device_factory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kasa/device_factory.py b/kasa/device_factory.py
index ecb0d0a..38d179e 100644
--- a/kasa/device_factory.py
+++ b/kasa/device_factory.py
@@ -142,7 +142,12 @@ def get_device_class_from_sys_info(sysinfo: dict[str, Any]) -> type[IotDevice]:
         # Disabled until properly implemented
         # DeviceType.Camera: IotCamera,
     }
-    return TYPE_TO_CLASS[IotDevice._get_device_type_from_sys_info(sysinfo)]
+    device_type = IotDevice._get_device_type_from_sys_info(sysinfo)
+    if (device_class := TYPE_TO_CLASS.get(device_type)) is None:
+        raise UnsupportedDeviceError(
+            f"Unsupported device type: {device_type}", discovery_result=sysinfo
+        )
+    return device_class
 
 
 def get_device_class_from_family(
-- 
2.43.0


From 81a37373958f8ab676b9a08a666e2dcaec867d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:45 +0000
Subject: [PATCH 15/48] fix: do not lose hosts with unexpected datagrams in
 discovery

Datagrams from unrelated ports hid the following answer of their host, and
unexpected contents raised instead of being reported as invalid.
---
 kasa/discover.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 8e2b981..1a7d541 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -345,6 +345,9 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             assert _AesDiscoveryQuery.keypair
 
         ip, port = addr
+        # Ignore everything that is not an answer to the queries
+        if port not in (self.discovery_port, Discover.DISCOVERY_PORT_2):
+            return
         # Prevent multiple entries due multiple broadcasts
         if ip in self.seen_hosts:
             return
@@ -361,11 +364,9 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             if port == self.discovery_port:
                 json_func = Discover._get_discovery_json_legacy
                 device_func = Discover._get_device_instance_legacy
-            elif port == Discover.DISCOVERY_PORT_2:
+            else:
                 json_func = Discover._get_discovery_json
                 device_func = Discover._get_device_instance
-            else:
-                return
             info = json_func(data, ip)
             if self.on_discovered_raw is not None:
                 self.on_discovered_raw(
@@ -387,6 +388,13 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             self.invalid_device_exceptions[ip] = ex
             self._handle_discovered_event()
             return
+        except Exception as ex:
+            _LOGGER.debug("[DISCOVERY] Unexpected response from %s: %s", ip, ex)
+            kex = KasaException(f"Unable to handle response from device: {ip}: {ex}")
+            kex.__cause__ = ex
+            self.invalid_device_exceptions[ip] = kex
+            self._handle_discovered_event()
+            return
 
         self.discovered_devices[ip] = device
 
-- 
2.43.0


From fdcb6f610685beb7cd5e54a5a79489e74f5a09eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:45 +0000
Subject: [PATCH 16/48] fix: wait for all callbacks before returning from
 discovery

Callbacks for responses received while waiting for earlier callbacks were
still running when discovery returned.
---
 kasa/discover.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 1a7d541..1799836 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -297,8 +297,13 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             # if target_discovered then cancel was called internally
             if not self.target_discovered:
                 raise
-        # Wait for any pending callbacks to complete
-        await asyncio.gather(*self.callback_tasks)
+        # Wait for any pending callbacks to complete, including those of responses
+        # that are received meanwhile
+        done = 0
+        while done < len(self.callback_tasks):
+            tasks = self.callback_tasks[done:]
+            done = len(self.callback_tasks)
+            await asyncio.gather(*tasks)
 
     def connection_made(self, transport: DatagramTransport) -> None:  # type: ignore[override]
         """Set socket options for broadcasting."""
-- 
2.43.0


From ba1fbd9cc3b6e35538f71d32f5e51fcbb1fe9670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:26 +0000
Subject: [PATCH 17/48] fix: keep an unset timeout when saving a device
 configuration

---
 kasa/deviceconfig.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kasa/deviceconfig.py b/kasa/deviceconfig.py
index 2b669f8..1bbb44d 100644
--- a/kasa/deviceconfig.py
+++ b/kasa/deviceconfig.py
@@ -176,6 +176,12 @@ class DeviceConfig(_DeviceConfigBaseMixin):
                 DeviceFamily.IotSmartPlugSwitch, DeviceEncryptionType.Xor
             )
 
+    def __post_serialize__(self, d: dict) -> dict:
+        """Keep an unset timeout, as omitting it would restore the default."""
+        if self.timeout is None:
+            d["timeout"] = None
+        return d
+
     def to_dict_control_credentials(
         self,
         *,
-- 
2.43.0


From 13e765d139899b1298db69ab80fc4759f9cc8e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:47 +0000
Subject: [PATCH 18/48] fix: reject nan for number features

---
 kasa/feature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/feature.py b/kasa/feature.py
index 0c4c6e2..51663e4 100644
--- a/kasa/feature.py
+++ b/kasa/feature.py
@@ -248,7 +248,8 @@ class Feature:
         if self.type == Feature.Type.Number:  # noqa: SIM102
             if not isinstance(value, int | float):
                 raise ValueError("value must be a number")
-            if value < self.minimum_value or value > self.maximum_value:
+            # nan is not within any range, hence the negation
+            if not self.minimum_value <= value <= self.maximum_value:
                 raise ValueError(
                     f"Value {value} out of range "
                     f"[{self.minimum_value}, {self.maximum_value}]"
-- 
2.43.0


From 50ccb34129d5e711649f389e73f2c70ad65462c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:47 +0000
Subject: [PATCH 19/48] fix: expose legacy dimmer fade times as numbers, as
 their features declare

---
 kasa/iot/modules/dimmer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kasa/iot/modules/dimmer.py b/kasa/iot/modules/dimmer.py
index 42a93ce..e59d339 100644
--- a/kasa/iot/modules/dimmer.py
+++ b/kasa/iot/modules/dimmer.py
@@ -63,7 +63,7 @@ class Dimmer(IotModule):
                 id="dimmer_fade_off_time",
                 name="Dimmer fade off time",
                 icon="mdi:clock-in",
-                attribute_getter="fade_off_time",
+                attribute_getter=lambda dimmer: _td_to_ms(dimmer.fade_off_time),
                 attribute_setter="set_fade_off_time",
                 range_getter=lambda: (
                     _td_to_ms(self.FADE_TIME_ABS_MIN),
@@ -81,7 +81,7 @@ class Dimmer(IotModule):
                 id="dimmer_fade_on_time",
                 name="Dimmer fade on time",
                 icon="mdi:clock-out",
-                attribute_getter="fade_on_time",
+                attribute_getter=lambda dimmer: _td_to_ms(dimmer.fade_on_time),
                 attribute_setter="set_fade_on_time",
                 range_getter=lambda: (
                     _td_to_ms(self.FADE_TIME_ABS_MIN),
@@ -99,7 +99,7 @@ class Dimmer(IotModule):
                 id="dimmer_gentle_off_time",
                 name="Dimmer gentle off time",
                 icon="mdi:clock-in",
-                attribute_getter="gentle_off_time",
+                attribute_getter=lambda dimmer: _td_to_ms(dimmer.gentle_off_time),
                 attribute_setter="set_gentle_off_time",
                 range_getter=lambda: (
                     _td_to_ms(self.GENTLE_TIME_ABS_MIN),
@@ -117,7 +117,7 @@ class Dimmer(IotModule):
                 id="dimmer_gentle_on_time",
                 name="Dimmer gentle on time",
                 icon="mdi:clock-out",
-                attribute_getter="gentle_on_time",
+                attribute_getter=lambda dimmer: _td_to_ms(dimmer.gentle_on_time),
                 attribute_setter="set_gentle_on_time",
                 range_getter=lambda: (
                     _td_to_ms(self.GENTLE_TIME_ABS_MIN),
-- 
2.43.0


From ba2c4fd77ed9cdb949154f26e037680eab5704e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:09 +0000
Subject: [PATCH 20/48] fix: edit the brightness of the light effect that is
 running and keep its name

The rule to edit was looked up with the rarely polled current_rule_id, which
devices only report while an effect runs: a KeyError or an edit of the wrong
rule was the result. The decoded name was sent back in place of the stored
one, and names that are valid base64 but not text broke the update.
---
 kasa/smart/modules/lighteffect.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index 96135de..7117103 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -40,7 +40,7 @@ class LightEffect(SmartModule, SmartLightEffect):
                 effect["scene_name"] = self.AVAILABLE_BULB_EFFECTS[effect["id"]]
             else:
                 # Otherwise it might be b64 encoded or raw string
-                with contextlib.suppress(binascii.Error):
+                with contextlib.suppress(binascii.Error, UnicodeDecodeError):
                     effect["scene_name"] = base64.b64decode(
                         effect["scene_name"]
                     ).decode()
@@ -120,7 +120,10 @@ class LightEffect(SmartModule, SmartLightEffect):
         If *effect_id* is None, return the data for active effect.
         """
         if effect_id is None:
-            effect_id = self.data["current_rule_id"]
+            # The rules are polled rarely, the device info tells what is running now
+            effect_id = self._device._info.get(
+                "dynamic_light_effect_id"
+            ) or self.data.get("current_rule_id")
 
         return self._effect_state_list[effect_id]
 
@@ -142,6 +145,10 @@ class LightEffect(SmartModule, SmartLightEffect):
     ) -> dict:
         """Set effect brightness."""
         new_effect = self._get_effect_data(effect_id=effect_id).copy()
+        # Keep the name as the device stores it
+        for rule in self.data["rule_list"]:
+            if rule["id"] == new_effect["id"]:
+                new_effect["scene_name"] = rule["scene_name"]
 
         def _replace_brightness(data: list[int], new_brightness: int) -> list[int]:
             """Replace brightness.
-- 
2.43.0


From a7247ab418310cec3fba26d13739e3b6c75d58c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:09 +0000
Subject: [PATCH 21/48] fix: save light presets to their own slot when effects
 are stored as presets

---
 kasa/smart/modules/lightpreset.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kasa/smart/modules/lightpreset.py b/kasa/smart/modules/lightpreset.py
index 87e96ea..8d72739 100644
--- a/kasa/smart/modules/lightpreset.py
+++ b/kasa/smart/modules/lightpreset.py
@@ -28,6 +28,7 @@ class LightPreset(SmartModule, LightPresetInterface):
 
     _presets: dict[str, LightState]
     _preset_list: list[str]
+    _preset_slots: dict[str, int]
 
     def __init__(self, device: SmartDevice, module: str) -> None:
         super().__init__(device, module)
@@ -38,10 +39,11 @@ class LightPreset(SmartModule, LightPresetInterface):
         """Update the internal presets."""
         index = 0
         self._presets = {}
+        self._preset_slots = {}
 
         state_key = "states" if not self._state_in_sysinfo else self.SYS_INFO_STATE_KEY
         if preset_states := self.data.get(state_key):
-            for preset_state in preset_states:
+            for slot, preset_state in enumerate(preset_states):
                 if "brightness" not in preset_state:
                     # Some devices can store effects as a preset. These will be ignored
                     # and handled in the effects module
@@ -53,6 +55,8 @@ class LightPreset(SmartModule, LightPresetInterface):
                 color_temp = preset_state.get("color_temp")
                 hue = preset_state.get("hue")
                 saturation = preset_state.get("saturation")
+                # Effects stored as a preset take up a slot, too
+                self._preset_slots[f"Light preset {index + 1}"] = slot
                 self._presets[f"Light preset {index + 1}"] = LightState(
                     brightness=preset_state["brightness"],
                     color_temp=color_temp,
@@ -139,8 +143,8 @@ class LightPreset(SmartModule, LightPresetInterface):
         """Update the preset with preset_name with the new preset_info."""
         if preset_name not in self._presets:
             raise ValueError(f"{preset_name} is not a valid preset: {self.preset_list}")
-        index = list(self._presets.keys()).index(preset_name)
         if self._brightness_only:
+            index = list(self._presets.keys()).index(preset_name)
             bright_list = [state.brightness for state in self._presets.values()]
             bright_list[index] = preset_state.brightness
             return await self.call("set_preset_rules", {"brightness": bright_list})
@@ -148,7 +152,8 @@ class LightPreset(SmartModule, LightPresetInterface):
             state_params = asdict(preset_state)
             new_info = {k: v for k, v in state_params.items() if v is not None}
             return await self.call(
-                "edit_preset_rules", {"index": index, "state": new_info}
+                "edit_preset_rules",
+                {"index": self._preset_slots[preset_name], "state": new_info},
             )
 
     @property
-- 
2.43.0


From be04ca11df5a2ef17cc3cc7f41b4e9b1fc3a1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:09 +0000
Subject: [PATCH 22/48] fix: save legacy light presets to their own index when
 effects are stored as presets

---
 kasa/iot/modules/lightpreset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kasa/iot/modules/lightpreset.py b/kasa/iot/modules/lightpreset.py
index 3330af6..5ba6f72 100644
--- a/kasa/iot/modules/lightpreset.py
+++ b/kasa/iot/modules/lightpreset.py
@@ -134,10 +134,9 @@ class LightPreset(IotModule, LightPresetInterface):
         if preset_name not in self._presets:
             raise ValueError(f"{preset_name} is not a valid preset: {self.preset_list}")
 
-        index = list(self._presets.keys()).index(preset_name)
         state = asdict(preset_state)
         state = {k: v for k, v in state.items() if v is not None}
-        state["index"] = index
+        state["index"] = self._presets[preset_name].index
 
         return await self.call("set_preferred_state", state)
 
@@ -163,7 +162,7 @@ class LightPreset(IotModule, LightPresetInterface):
         if len(self._presets) == 0:
             raise KasaException("Device does not supported saving presets")
 
-        if preset.index >= len(self._presets):
+        if preset.index not in {vals["index"] for vals in self.data["preferred_state"]}:
             raise KasaException("Invalid preset index")
 
         return await self.call("set_preferred_state", preset.to_dict())
-- 
2.43.0


From a2b4fd106ff800d90a4f0fd0163bb307404031b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:09 +0000
Subject: [PATCH 23/48] fix: convert numeric alarm volumes before sending them

---
 kasa/smart/modules/alarm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kasa/smart/modules/alarm.py b/kasa/smart/modules/alarm.py
index cd60218..267df59 100644
--- a/kasa/smart/modules/alarm.py
+++ b/kasa/smart/modules/alarm.py
@@ -171,9 +171,8 @@ class Alarm(SmartModule, AlarmInterface):
         self, volume: AlarmVolume | int
     ) -> Annotated[dict, FeatureAttribute()]:
         """Set alarm volume."""
-        self._check_and_convert_volume(volume)
         payload = self.data["get_alarm_configure"].copy()
-        payload["volume"] = volume
+        payload["volume"] = self._check_and_convert_volume(volume)
         return await self.call("set_alarm_configure", payload)
 
     @property
-- 
2.43.0


From 2a71cda7035d9a488231e56d908929c0da6b6a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:09 +0000
Subject: [PATCH 24/48] fix: read the charging state of battery cameras from
 battery_charging

---
 kasa/smartcam/modules/battery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smartcam/modules/battery.py b/kasa/smartcam/modules/battery.py
index d6bd97f..083cfdc 100644
--- a/kasa/smartcam/modules/battery.py
+++ b/kasa/smartcam/modules/battery.py
@@ -110,4 +110,4 @@ class Battery(SmartCamModule):
     @property
     def battery_charging(self) -> bool:
         """Return True if battery is charging."""
-        return self._device.sys_info["battery_voltage"] != "NO"
+        return self._device.sys_info["battery_charging"] != "NO"
-- 
2.43.0


From bdfd66934e4e127c750fd9718fcc13f1d44a014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:09 +0000
Subject: [PATCH 25/48] fix: read the night mode settings of the led from where
 devices report them

---
 kasa/smart/modules/led.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kasa/smart/modules/led.py b/kasa/smart/modules/led.py
index 1733c3c..df19333 100644
--- a/kasa/smart/modules/led.py
+++ b/kasa/smart/modules/led.py
@@ -43,10 +43,12 @@ class Led(SmartModule, LedInterface):
     @property
     def night_mode_settings(self) -> dict:
         """Night mode settings."""
+        night_mode = self.data["night_mode"]
         return {
-            "start": self.data["start_time"],
-            "end": self.data["end_time"],
-            "type": self.data["night_mode_type"],
-            "sunrise_offset": self.data["sunrise_offset"],
-            "sunset_offset": self.data["sunset_offset"],
+            "start": night_mode["start_time"],
+            "end": night_mode["end_time"],
+            "type": night_mode["night_mode_type"],
+            # Only reported for the type sunrise_sunset
+            "sunrise_offset": night_mode.get("sunrise_offset"),
+            "sunset_offset": night_mode.get("sunset_offset"),
         }
-- 
2.43.0


From 44ae7429f9589a5ec596cc9d041cd31ed737868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:15 +0000
Subject: [PATCH 26/48] fix: do not run the post update hook of legacy modules
 the device does not support

A bulb or plug whose energy meter is reported as unsupported could not be
updated: KeyError('get_realtime').
---
 kasa/iot/iotdevice.py | 3 ++-
 kasa/iot/iotstrip.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index d1de7f9..b4295d5 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -323,7 +323,8 @@ class IotDevice(Device):
 
         self._set_sys_info(_extract_sys_info(self._last_update))
         for module in self._modules.values():
-            await module._post_update_hook()
+            if module.is_supported:
+                await module._post_update_hook()
 
         if not self._features:
             await self._initialize_features()
diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index a63b3e1..fe1cd8e 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -384,7 +384,8 @@ class IotStripPlug(IotPlug):
         """
         await self._modular_update({})
         for module in self._modules.values():
-            await module._post_update_hook()
+            if module.is_supported:
+                await module._post_update_hook()
 
         if not self._features:
             await self._initialize_features()
-- 
2.43.0


From d6380d9676ce08df732e809bdf354bb09d181575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:15 +0000
Subject: [PATCH 27/48] fix: update legacy devices that do not support reading
 the timezone

---
 kasa/iot/modules/time.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kasa/iot/modules/time.py b/kasa/iot/modules/time.py
index 896172d..a002fae 100644
--- a/kasa/iot/modules/time.py
+++ b/kasa/iot/modules/time.py
@@ -24,8 +24,9 @@ class Time(IotModule, TimeInterface):
 
     async def _post_update_hook(self) -> None:
         """Perform actions after a device update."""
-        if res := self.data.get("get_timezone"):
-            self._timezone = await get_timezone(res.get("index"))
+        res = self.data.get("get_timezone", {})
+        if (index := res.get("index")) is not None:
+            self._timezone = await get_timezone(index)
 
     @property
     def time(self) -> datetime:
-- 
2.43.0


From 552537fb126bdf21bfe31112d59aeca3bc68b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:15 +0000
Subject: [PATCH 28/48] fix: do not mix up the data of the sockets of legacy
 strips

The strip and its sockets shared the response dicts that each of them updated
in place, so all of them ended up with the usage and schedule of the last socket.
---
 kasa/iot/iotdevice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index b4295d5..1099a9a 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -431,7 +431,9 @@ class IotDevice(Device):
                 # {'err_code': -1, 'err_msg': 'module not support'}
                 # become top level key/values of the response so check for dict
                 if isinstance(v, dict):
-                    update.setdefault(k, {}).update(**v)
+                    # Create a new dict as strips share the last update with their
+                    # sockets, whose responses must not end up in each other's data
+                    update[k] = {**update.get(k, {}), **v}
         self._last_update = update
 
         # IOT modules are added as default but could be unsupported post first update
-- 
2.43.0


From 726f6c9245a9428c351eb693c6e51e4418a93431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 29/48] fix: command every socket when switching a legacy strip
 on or off

---
 kasa/iot/iotstrip.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index fe1cd8e..c363ec6 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -161,16 +161,18 @@ class IotStrip(IotDevice):
 
     async def turn_on(self, **kwargs) -> dict:
         """Turn the strip on."""
+        # All sockets are commanded as their states may be different from what is
+        # known since the last update
         for plug in self.children:
-            if plug.is_off:
-                await plug.turn_on()
+            await plug.turn_on()
         return {}
 
     async def turn_off(self, **kwargs) -> dict:
         """Turn the strip off."""
+        # All sockets are commanded as their states may be different from what is
+        # known since the last update
         for plug in self.children:
-            if plug.is_on:
-                await plug.turn_off()
+            await plug.turn_off()
         return {}
 
     @property  # type: ignore
-- 
2.43.0


From 7e9514b448b805bd914bd6269f131ceb15cc4f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 30/48] fix: follow the on time of devices in both directions

---
 kasa/iot/iotdevice.py     | 4 +---
 kasa/iot/iotstrip.py      | 4 +---
 kasa/smart/smartdevice.py | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index 1099a9a..7b2e04d 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -645,9 +645,7 @@ class IotDevice(Device):
         on_time = self._sys_info["on_time"]
 
         on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
         return self._on_since
 
diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index c363ec6..935a650 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -470,9 +470,7 @@ class IotStripPlug(IotPlug):
         time = self._parent.time
 
         on_since = time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
         return self._on_since
 
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index f4f9295..3ce68b0 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -671,9 +671,7 @@ class SmartDevice(Device):
 
         on_time = cast(float, on_time)
         on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
         return self._on_since
 
-- 
2.43.0


From 69a5eda4463c81621ca64f726c06537506aaaba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 31/48] fix: compute the switch-on time in UTC so that clock
 changes do not shift it

---
 kasa/iot/iotdevice.py     | 13 ++++++++++---
 kasa/iot/iotstrip.py      | 12 +++++++++---
 kasa/smart/smartdevice.py | 11 +++++++++--
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index 7b2e04d..d367abc 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -18,7 +18,7 @@ import functools
 import inspect
 import logging
 from collections.abc import Callable, Mapping, Sequence
-from datetime import datetime, timedelta, tzinfo
+from datetime import UTC, datetime, timedelta, tzinfo
 from typing import TYPE_CHECKING, Any, cast
 from warnings import warn
 
@@ -644,8 +644,15 @@ class IotDevice(Device):
 
         on_time = self._sys_info["on_time"]
 
-        on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
+        time = self.time
+        # Calculate in UTC as the utc offset can have changed since then
+        on_since = (time.astimezone(UTC) - timedelta(seconds=on_time)).astimezone(
+            time.tzinfo
+        )
+        if (
+            not self._on_since
+            or abs(on_since.timestamp() - self._on_since.timestamp()) > 5
+        ):
             self._on_since = on_since
         return self._on_since
 
diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index 935a650..6be8b15 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import logging
 from collections import defaultdict
-from datetime import datetime, timedelta
+from datetime import UTC, datetime, timedelta
 from typing import TYPE_CHECKING, Any
 
 from ..device_type import DeviceType
@@ -469,8 +469,14 @@ class IotStripPlug(IotPlug):
 
         time = self._parent.time
 
-        on_since = time - timedelta(seconds=on_time)
-        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
+        # Calculate in UTC as the utc offset can have changed since then
+        on_since = (time.astimezone(UTC) - timedelta(seconds=on_time)).astimezone(
+            time.tzinfo
+        )
+        if (
+            not self._on_since
+            or abs(on_since.timestamp() - self._on_since.timestamp()) > 5
+        ):
             self._on_since = on_since
         return self._on_since
 
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 3ce68b0..4a1fa2c 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -670,8 +670,15 @@ class SmartDevice(Device):
             return None
 
         on_time = cast(float, on_time)
-        on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
+        time = self.time
+        # Calculate in UTC as the utc offset can have changed since then
+        on_since = (time.astimezone(UTC) - timedelta(seconds=on_time)).astimezone(
+            time.tzinfo
+        )
+        if (
+            not self._on_since
+            or abs(on_since.timestamp() - self._on_since.timestamp()) > 5
+        ):
             self._on_since = on_since
         return self._on_since
 
-- 
2.43.0


From 5a3fbea063c901dad9feef243ca336e1ee3e7e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 32/48] fix: redact answers to single queries in debug logs

---
 kasa/protocols/smartcamprotocol.py |  9 +++++++--
 kasa/protocols/smartprotocol.py    | 10 ++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index ce7100d..d895717 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -19,7 +19,8 @@ from ..transports.sslaestransport import (
     SMART_RETRYABLE_ERRORS,
     SmartErrorCode,
 )
-from .smartprotocol import SmartProtocol
+from .protocol import redact_data
+from .smartprotocol import REDACTORS, SmartProtocol
 
 _LOGGER = logging.getLogger(__name__)
 
@@ -166,10 +167,14 @@ class SmartCamProtocol(SmartProtocol):
         response_data = await self._transport.send(smart_request)
 
         if debug_enabled:
+            if self._redact_data:
+                data = redact_data(response_data, REDACTORS)
+            else:
+                data = response_data
             _LOGGER.debug(
                 "%s << %s",
                 self._host,
-                pf(response_data),
+                pf(data),
             )
 
         if "error_code" in response_data:
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 5fadd5c..7a51b91 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -302,7 +302,9 @@ class SmartProtocol(BaseProtocol):
                         _LOGGER.error(
                             "No method key in response for %s, skipping: %s",
                             self._host,
-                            response_step,
+                            redact_data(response_step, REDACTORS)
+                            if self._redact_data
+                            else response_step,
                         )
                     # These will end up being queried individually
                     continue
@@ -363,10 +365,14 @@ class SmartProtocol(BaseProtocol):
         response_data = await self._transport.send(smart_request)
 
         if debug_enabled:
+            if self._redact_data:
+                data = redact_data(response_data, REDACTORS)
+            else:
+                data = response_data
             _LOGGER.debug(
                 "%s << %s",
                 self._host,
-                pf(response_data),
+                pf(data),
             )
 
         self._handle_response_error_code(response_data, smart_method)
-- 
2.43.0


From a38d829d13942c975e07827bd1c3f1acd99ad44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 33/48] fix: do not log unredacted answers in the ssl and
 linkie transports

---
 kasa/transports/linkietransport.py | 2 +-
 kasa/transports/ssltransport.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/transports/linkietransport.py b/kasa/transports/linkietransport.py
index b817373..5f4fd8f 100644
--- a/kasa/transports/linkietransport.py
+++ b/kasa/transports/linkietransport.py
@@ -95,7 +95,7 @@ class LinkieTransportV2(BaseTransport):
             json_payload: dict = json_loads(
                 XorEncryption.decrypt(base64.b64decode(response))
             )
-            _LOGGER.debug("%s << %s", self._host, json_payload)
+            _LOGGER.debug("Device %s query response received", self._host)
             return json_payload
         except Exception:  # noqa: S110
             pass
diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index 3a22fb0..a04c9d6 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -159,7 +159,7 @@ class SslTransport(BaseTransport):
                 + f"status code {status_code}"
             )
 
-        _LOGGER.debug("Response with %s: %r", status_code, resp_dict)
+        _LOGGER.debug("Response with %s", status_code)
 
         await self._handle_response_error_code(resp_dict, "Error sending request")
 
-- 
2.43.0


From 1b66e003f123046b462b058082296af41af974a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 34/48] fix: redact discovery answers of unsupported devices in
 messages

---
 kasa/discover.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 1799836..7f5bc3e 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -911,8 +911,14 @@ class Discover:
             device_class := get_device_class_from_family(type_, https=conn_params.https)
         ) is None:
             _LOGGER.debug("Got unsupported device type: %s", type_)
+            # The message ends up in the debug log
+            data = (
+                redact_data(info, NEW_DISCOVERY_REDACTORS)
+                if Discover._redact_data
+                else info
+            )
             raise UnsupportedDeviceError(
-                f"Unsupported device {config.host} of type {type_}: {info}",
+                f"Unsupported device {config.host} of type {type_}: {data}",
                 discovery_result=discovery_result.to_dict(),
                 host=config.host,
             )
@@ -921,9 +927,15 @@ class Discover:
             _LOGGER.debug(
                 "Got unsupported connection type: %s", config.connection_type.to_dict()
             )
+            # The message ends up in the debug log
+            data = (
+                redact_data(info, NEW_DISCOVERY_REDACTORS)
+                if Discover._redact_data
+                else info
+            )
             raise UnsupportedDeviceError(
                 f"Unsupported encryption scheme {config.host} of "
-                + f"type {config.connection_type.to_dict()}: {info}",
+                + f"type {config.connection_type.to_dict()}: {data}",
                 discovery_result=discovery_result.to_dict(),
                 host=config.host,
             )
-- 
2.43.0


From 04cdabba30a000cef6fe73d435c6b5b9525543c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:36 +0000
Subject: [PATCH 35/48] fix: keep vacuum records when only the device time
 could not be queried

---
 kasa/smart/modules/cleanrecords.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kasa/smart/modules/cleanrecords.py b/kasa/smart/modules/cleanrecords.py
index fdd0dae..8fb7ee8 100644
--- a/kasa/smart/modules/cleanrecords.py
+++ b/kasa/smart/modules/cleanrecords.py
@@ -104,9 +104,12 @@ class CleanRecords(SmartModule):
 
     async def _post_update_hook(self) -> None:
         """Cache parsed data after an update."""
-        self._parsed_data = Records.from_dict(
-            self.data, dialect=_get_tz_strategy(self._device.timezone)
-        )
+        # The records stay usable if only the time could not be queried
+        if time_mod := self._device.modules.get(Module.Time):
+            tz = time_mod.timezone
+        else:
+            tz = self._device.timezone
+        self._parsed_data = Records.from_dict(self.data, dialect=_get_tz_strategy(tz))
 
     def _initialize_features(self) -> None:
         """Initialize features."""
-- 
2.43.0


From e3d95ebace1052629d42ac82f686d9a681473e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:31 +0000
Subject: [PATCH 36/48] fix: keep vacuum consumables per device

---
 kasa/smart/modules/consumables.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/consumables.py b/kasa/smart/modules/consumables.py
index 10de583..0485ff1 100644
--- a/kasa/smart/modules/consumables.py
+++ b/kasa/smart/modules/consumables.py
@@ -6,10 +6,14 @@ import logging
 from collections.abc import Mapping
 from dataclasses import dataclass
 from datetime import timedelta
+from typing import TYPE_CHECKING
 
 from ...feature import Feature
 from ..smartmodule import SmartModule
 
+if TYPE_CHECKING:
+    from ..smartdevice import SmartDevice
+
 _LOGGER = logging.getLogger(__name__)
 
 
@@ -86,7 +90,9 @@ class Consumables(SmartModule):
     REQUIRED_COMPONENT = "consumables"
     QUERY_GETTER_NAME = "getConsumablesInfo"
 
-    _consumables: dict[str, Consumable] = {}
+    def __init__(self, device: SmartDevice, module: str) -> None:
+        super().__init__(device, module)
+        self._consumables: dict[str, Consumable] = {}
 
     def _initialize_features(self) -> None:
         """Initialize features."""
-- 
2.43.0


From 7bcb855d15ed712c83e3171a744f8ba1c922c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:01 +0000
Subject: [PATCH 37/48] fix: read the water alert time in the hub's timezone

---
 kasa/smart/modules/waterleaksensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/waterleaksensor.py b/kasa/smart/modules/waterleaksensor.py
index b6f0101..881c41a 100644
--- a/kasa/smart/modules/waterleaksensor.py
+++ b/kasa/smart/modules/waterleaksensor.py
@@ -84,5 +84,9 @@ class WaterleakSensor(SmartModule):
             return None
 
         ts = self._device.sys_info["trigger_timestamp"]
-        tz = self._device.modules[Module.Time].timezone
+        if time_mod := self._device.modules.get(Module.Time):
+            tz = time_mod.timezone
+        else:
+            # Sensors of a hub have no time of their own, use the one of the hub
+            tz = self._device.timezone
         return datetime.fromtimestamp(ts, tz=tz)
-- 
2.43.0


From 2a6f1cd8d0ab14f59aa663419212425e51286b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:01 +0000
Subject: [PATCH 38/48] fix: report idle thermostats with low battery as idle

---
 kasa/smart/modules/temperaturecontrol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/modules/temperaturecontrol.py b/kasa/smart/modules/temperaturecontrol.py
index 5b08046..616c2d8 100644
--- a/kasa/smart/modules/temperaturecontrol.py
+++ b/kasa/smart/modules/temperaturecontrol.py
@@ -93,12 +93,13 @@ class TemperatureControl(SmartModule):
 
         states = self.states
 
+        # Discard known extra states, and report on unknown extra states
+        states.discard("low_battery")
+
         # If the states is empty, the device is idling
         if not states:
             return ThermostatState.Idle
 
-        # Discard known extra states, and report on unknown extra states
-        states.discard("low_battery")
         if len(states) > 1:
             _LOGGER.warning("Got multiple states: %s", states)
 
-- 
2.43.0


From 4dd8db11f229eb19db97d02b90b8bd704f46385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:31 +0000
Subject: [PATCH 39/48] fix: refuse unsupported unnamed timezones on iot
 devices with an error

get_timezone_index() raised UnboundLocalError instead of ValueError for tzinfos
that are not ZoneInfo and do not match any zone of the device.
---
 kasa/iot/iottimezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/iot/iottimezone.py b/kasa/iot/iottimezone.py
index 6553834..b1164ef 100644
--- a/kasa/iot/iottimezone.py
+++ b/kasa/iot/iottimezone.py
@@ -35,7 +35,7 @@ async def get_timezone_index(tzone: tzinfo) -> int:
     for i in range(110):
         if _is_same_timezone(tzone, await get_timezone(i)):
             return i
-    raise ValueError("Device does not support timezone %s", name)
+    raise ValueError(f"Device does not support timezone {tzone}")
 
 
 async def get_matching_timezones(tzone: tzinfo) -> list[str]:
-- 
2.43.0


From e56ad2ee81eb92cc226b81aafc7b1a5128d1185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:25 +0000
Subject: [PATCH 40/48] fix: list schedule rules without failing

The else branch of the loop ran also when there were rules, so that the command
always ended with an error.
---
 kasa/cli/schedule.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kasa/cli/schedule.py b/kasa/cli/schedule.py
index 7c9c738..9e4a7c3 100644
--- a/kasa/cli/schedule.py
+++ b/kasa/cli/schedule.py
@@ -24,11 +24,12 @@ async def schedule(dev) -> None:
 async def _schedule_list(dev, type):
     """Return the list of schedule actions for the given type."""
     sched = dev.modules[type]
-    for rule in sched.rules:
-        print(rule)
-    else:
+    if not sched.rules:
         error(f"No rules of type {type}")
 
+    for rule in sched.rules:
+        echo(str(rule))
+
     return sched.rules
 
 
-- 
2.43.0


From 8c7196e223ebd4629a9ba367f3c4bf243be2bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:25 +0000
Subject: [PATCH 41/48] fix: modify the color temperature of presets from the
 cli

Presets have color_temp, not temperature, so that every use of --temperature raised.
---
 kasa/cli/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index a778556..90bf64c 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -179,7 +179,7 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
         preset.hue = hue
     if saturation is not None and preset.saturation is not None:
         preset.saturation = saturation
-    if temperature is not None and preset.temperature is not None:
+    if temperature is not None and preset.color_temp is not None:
         preset.color_temp = temperature
 
     echo(f"Updating preset {preset_name} to: {preset}")
-- 
2.43.0


From c25fd1eee0c8a36c2f7ab610892c86fc79b2d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:56 +0000
Subject: [PATCH 42/48] fix: accept preset 0 for the turn on behavior in the
 cli

---
 kasa/cli/light.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index 90bf64c..fe8102c 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -201,11 +201,11 @@ async def turn_on_behavior(dev: Device, type, last, preset):
     echo(f"Current turn on behavior: {settings}")
 
     # Return if we are not setting the value
-    if not type and not last and not preset:
+    if not type and not last and preset is None:
         return settings
 
     # If we are setting the value, the type has to be specified
-    if (last or preset) and type is None:
+    if (last or preset is not None) and type is None:
         echo("To set the behavior, you need to define --type")
         return
 
-- 
2.43.0


From d391598577684750808444da6f3d5b155ee07beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:56 +0000
Subject: [PATCH 43/48] fix: set the mode of turn on behaviors when changing
 the preset

Changing the preset is documented to be all that is needed, but the mode was left
as it was, so that the device did not use the preset.
---
 kasa/iot/iotbulb.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotbulb.py b/kasa/iot/iotbulb.py
index cb2e858..4d0af44 100644
--- a/kasa/iot/iotbulb.py
+++ b/kasa/iot/iotbulb.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import logging
 import re
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from enum import Enum
 from typing import Annotated, cast
 
@@ -69,6 +69,14 @@ class TurnOnBehavior(DataClassDictMixin):
     hue: int | None = None
     saturation: int | None = None
 
+    def __pre_serialize__(self) -> TurnOnBehavior:
+        """Set the mode based on the preset."""
+        if self.preset is not None:
+            return replace(self, mode=BehaviorMode.Preset)
+        if self.mode is BehaviorMode.Preset:
+            return replace(self, mode=BehaviorMode.Last)
+        return self
+
 
 @dataclass
 class TurnOnBehaviors(DataClassDictMixin):
-- 
2.43.0


From 109204522a330870f6d7fa41557109e48658809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:56 +0000
Subject: [PATCH 44/48] fix: do not hang when discovery by alias fails

An exception of the discovery was lost in its task and the cli waited forever.
---
 kasa/cli/discover.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index af367e3..29bfaad 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -369,17 +369,22 @@ async def find_dev_from_alias(
             found_event.set()
 
     async def do_discover():
-        for _ in range(1, attempts):
-            await Discover.discover(
-                target=target,
-                timeout=timeout,
-                credentials=credentials,
-                on_discovered=on_discovered,
-            )
-            if found_event.is_set():
-                break
-        found_event.set()
+        try:
+            for _ in range(1, attempts):
+                await Discover.discover(
+                    target=target,
+                    timeout=timeout,
+                    credentials=credentials,
+                    on_discovered=on_discovered,
+                )
+                if found_event.is_set():
+                    break
+        finally:
+            found_event.set()
 
-    asyncio.create_task(do_discover())
+    discover_task = asyncio.create_task(do_discover())
     await found_event.wait()
+    if not found_device:
+        # Raise the exception if the discovery failed
+        await discover_task
     return found_device[0] if found_device else None
-- 
2.43.0


From 3ada463a2f2bc0f04d9a0ee7d198129bed31025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:42 +0000
Subject: [PATCH 45/48] fix: run the cli commands that were missing the child
 options

The options of pass_dev_or_child were lost when it was not the innermost
decorator, so schedule list, schedule delete and turn-on-behavior always failed.
---
 kasa/cli/light.py    | 2 +-
 kasa/cli/schedule.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index fe8102c..655566a 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -188,10 +188,10 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
 
 
 @light.command()
-@pass_dev_or_child
 @click.option("--type", type=click.Choice(["soft", "hard"], case_sensitive=False))
 @click.option("--last", is_flag=True)
 @click.option("--preset", type=int)
+@pass_dev_or_child
 async def turn_on_behavior(dev: Device, type, last, preset):
     """Modify bulb turn-on behavior."""
     if dev.device_type is not Device.Type.Bulb or not isinstance(dev, IotBulb):
diff --git a/kasa/cli/schedule.py b/kasa/cli/schedule.py
index 9e4a7c3..a2ae927 100644
--- a/kasa/cli/schedule.py
+++ b/kasa/cli/schedule.py
@@ -19,8 +19,8 @@ async def schedule(dev) -> None:
 
 
 @schedule.command(name="list")
-@pass_dev_or_child
 @click.argument("type", default="schedule")
+@pass_dev_or_child
 async def _schedule_list(dev, type):
     """Return the list of schedule actions for the given type."""
     sched = dev.modules[type]
@@ -34,8 +34,8 @@ async def _schedule_list(dev, type):
 
 
 @schedule.command(name="delete")
-@pass_dev_or_child
 @click.option("--id", type=str, required=True)
+@pass_dev_or_child
 async def delete_rule(dev, id):
     """Delete rule from device."""
     schedule = dev.modules["schedule"]
-- 
2.43.0


From 34ecd6ce9b5dc0bbbf1fd5d2de5ded3ebf207375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:42 +0000
Subject: [PATCH 46/48] fix: print only json from the vacuum commands with
 --json

---
 kasa/cli/vacuum.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kasa/cli/vacuum.py b/kasa/cli/vacuum.py
index d0ccc55..2e6edb2 100644
--- a/kasa/cli/vacuum.py
+++ b/kasa/cli/vacuum.py
@@ -10,6 +10,7 @@ from kasa import (
 )
 
 from .common import (
+    echo,
     error,
     pass_dev_or_child,
 )
@@ -30,12 +31,12 @@ async def records_group(dev: Device) -> None:
 
     data = rec.parsed_data
     latest = data.last_clean
-    click.echo(
+    echo(
         f"Totals: {rec.total_clean_area} {rec.area_unit} in {rec.total_clean_time} "
         f"(cleaned {rec.total_clean_count} times)"
     )
-    click.echo(f"Last clean: {latest.clean_area} {rec.area_unit} @ {latest.clean_time}")
-    click.echo("Execute `kasa vacuum records list` to list all records.")
+    echo(f"Last clean: {latest.clean_area} {rec.area_unit} @ {latest.clean_time}")
+    echo("Execute `kasa vacuum records list` to list all records.")
 
 
 @records_group.command(name="list")
@@ -47,7 +48,7 @@ async def records_list(dev: Device) -> None:
 
     data = rec.parsed_data
     for record in data.records:
-        click.echo(
+        echo(
             f"* {record.timestamp}: cleaned {record.clean_area} {rec.area_unit}"
             f" in {record.clean_time}"
         )
@@ -63,7 +64,7 @@ async def consumables(ctx: click.Context, dev: Device) -> None:
 
     if not ctx.invoked_subcommand:
         for c in cons.consumables.values():
-            click.echo(f"{c.name} ({c.id}): {c.used} used, {c.remaining} remaining")
+            echo(f"{c.name} ({c.id}): {c.used} used, {c.remaining} remaining")
 
 
 @consumables.command(name="reset")
@@ -81,4 +82,4 @@ async def reset_consumable(dev: Device, consumable_id: str) -> None:
 
     await cons.reset_consumable(consumable_id)
 
-    click.echo(f"Consumable {consumable_id} reset")
+    echo(f"Consumable {consumable_id} reset")
-- 
2.43.0


From cea082b74da435036bb295b8372c54022a1d86d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:09 +0000
Subject: [PATCH 47/48] fix: send turn on behaviors with the names that bulbs
 use

---
 kasa/iot/iotbulb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kasa/iot/iotbulb.py b/kasa/iot/iotbulb.py
index 4d0af44..4cf4add 100644
--- a/kasa/iot/iotbulb.py
+++ b/kasa/iot/iotbulb.py
@@ -82,6 +82,11 @@ class TurnOnBehavior(DataClassDictMixin):
 class TurnOnBehaviors(DataClassDictMixin):
     """Model to contain turn on behaviors."""
 
+    class Config(BaseConfig):
+        """Serialization config."""
+
+        serialize_by_alias = True
+
     #: The behavior when the bulb is turned on programmatically.
     soft: Annotated[TurnOnBehavior, Alias("soft_on")]
     #: The behavior when the bulb has been off from mains power.
-- 
2.43.0


From 5741ff169cb362afe1a7952dcd8ac7b8d2302668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:20 +0000
Subject: [PATCH 48/48] fix: read the time of sockets from their legacy strip

The time and timezone of a socket raised a KeyError, and the cli could not
show the state of a socket.
---
 kasa/iot/iotstrip.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index 6be8b15..68e5a83 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import logging
 from collections import defaultdict
-from datetime import UTC, datetime, timedelta
+from datetime import UTC, datetime, timedelta, tzinfo
 from typing import TYPE_CHECKING, Any
 
 from ..device_type import DeviceType
@@ -449,6 +449,16 @@ class IotStripPlug(IotPlug):
         info = self._get_child_info()
         return info["alias"]
 
+    @property
+    def time(self) -> datetime:
+        """Return current time from the parent device."""
+        return self._parent.time
+
+    @property
+    def timezone(self) -> tzinfo:
+        """Return the current timezone of the parent device."""
+        return self._parent.timezone
+
     @property  # type: ignore
     @requires_update
     def next_action(self) -> dict:
-- 
2.43.0

