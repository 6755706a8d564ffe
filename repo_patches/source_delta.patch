From f061b040f5f5cd33176081918edda04334a4b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 01/36] fix: do not sign-extend non-ASCII characters when
 writing strings to Modbus registers

---
 src/modbus_common.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 716feb2..bfbfcb7 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -426,7 +426,10 @@ namespace Modbus // modbus protocol common utilities
         auto width = std::min(GetModbusDataWidthIn16BitWords(reg), static_cast<uint32_t>(size));
         words.resize(width);
         for (uint32_t i = 0; i < width; ++i) {
-            words[i] = reg.Format == RegisterFormat::String8 ? str[i * 2] << 8 | str[i * 2 + 1] : str[i];
+            // char may be signed, do not let non-ASCII characters spoil the other byte of the word
+            words[i] = reg.Format == RegisterFormat::String8
+                           ? static_cast<uint8_t>(str[i * 2]) << 8 | static_cast<uint8_t>(str[i * 2 + 1])
+                           : static_cast<uint8_t>(str[i]);
         }
     }
 
-- 
2.43.0


From b51c355bcb3bebe63aba40c36e2c49ab963ce325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 02/36] fix: bit fields of multi-word holding_single registers
 are written where they are read from and keep their neighbours

---
 src/modbus_common.cpp | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index bfbfcb7..51f075e 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -514,36 +514,36 @@ namespace Modbus // modbus protocol common utilities
     // Byte order corresponds to register settings.
     void ComposeRawSingleWriteRequestData(std::vector<uint8_t>& data,
                                           const TRegisterConfig& reg,
-                                          uint16_t value,
+                                          uint64_t value,
                                           uint8_t wordIndex,
                                           const Modbus::TRegisterCache& cache,
                                           Modbus::TRegisterCache& tmpCache)
     {
-        uint16_t cachedValue = 0;
-        auto address = 0;
-        auto bitWidth = reg.GetDataWidth();
-        auto updateCache = false;
+        // Bits of the word occupied by the value. The first word is the most significant one
+        auto wordStartBit = (GetModbusDataWidthIn16BitWords(reg) - wordIndex - 1) * 16;
+        auto startBit = std::max(reg.GetDataOffset(), wordStartBit);
+        auto endBit = std::min(reg.GetDataOffset() + reg.GetDataWidth(), wordStartBit + 16);
+        uint16_t mask = 0;
+        uint16_t valueToWrite = 0;
+        if (startBit < endBit) {
+            mask = GetLSBMask(endBit - startBit) << (startBit - wordStartBit);
+            valueToWrite = mask & ((value >> (startBit - reg.GetDataOffset())) << (startBit - wordStartBit));
+        }
 
-        // use cache only for "partial" registers
-        if (bitWidth < 16) {
-            address = GetUint32RegisterAddress(reg.GetAddress()) + wordIndex;
-            if (cache.count(address)) {
-                cachedValue = cache.at(address);
+        // Cache is filled by reading, there is nothing to read from "write-only" registers
+        if (reg.AccessType != TRegisterConfig::EAccessType::WRITE_ONLY) {
+            auto address = GetUint32RegisterAddress(reg.GetAddress()) + wordIndex;
+            auto it = cache.find(address);
+            if (it != cache.end()) {
+                valueToWrite |= ~mask & it->second;
+            }
+            if (IsHoldingType(reg.Type)) {
+                tmpCache[address] = valueToWrite;
             }
-            updateCache = true;
         }
 
-        auto bitOffset = std::max(static_cast<int32_t>(reg.GetDataOffset()) - wordIndex * 16, 0);
-        auto bitCount = std::min(static_cast<uint32_t>(16 - bitOffset), bitWidth);
-        auto mask = GetLSBMask(bitCount) << bitOffset;
-        auto valueToWrite = (~mask & cachedValue) | (mask & (value << bitOffset));
-
         data.resize(2);
         WriteAs2Bytes(data.data(), valueToWrite, reg.ByteOrder);
-
-        if (updateCache) {
-            tmpCache[address] = valueToWrite;
-        }
     }
 
     void ParseSingleBitReadResponse(const std::vector<uint8_t>& data, TModbusRegisterRange& range)
@@ -747,7 +747,7 @@ namespace Modbus // modbus protocol common utilities
             auto responsePduSize = Modbus::CalcResponsePDUSize(fn, 1);
             for (size_t i = 0; i < requestsCount; ++i) {
                 auto wordIndex = requestsCount - i - 1;
-                ComposeRawSingleWriteRequestData(data, reg, static_cast<uint16_t>(val), wordIndex, cache, tmpCache);
+                ComposeRawSingleWriteRequestData(data, reg, val, wordIndex, cache, tmpCache);
                 WriteTransaction(traits,
                                  port,
                                  slaveId,
@@ -757,7 +757,6 @@ namespace Modbus // modbus protocol common utilities
                                  requestDelay,
                                  responseTimeout,
                                  frameTimeout);
-                val >>= 16;
             }
         }
         for (const auto& item: tmpCache) {
-- 
2.43.0


From 2ad5b05082a043a68b1449afe1353283052747dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 03/36] fix: a value that does not fit a multi-word bit field
 does not spoil neighbour bits

---
 src/modbus_common.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 51f075e..dd8a254 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -468,8 +468,8 @@ namespace Modbus // modbus protocol common utilities
             updateCache = true;
         }
 
-        // Place data
-        value <<= reg.GetDataOffset();
+        // Place data, do not let too big value to change neighbour bits
+        value = (value & GetLSBMask(reg.GetDataWidth())) << reg.GetDataOffset();
         valueToWrite |= value;
 
         words.resize(width);
-- 
2.43.0


From 9f265ff4d72426a1eb05fdf7b3a4ba48ae4b8e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 04/36] fix: accept negative values for unsigned registers with
 offset

---
 src/register.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/register.cpp b/src/register.cpp
index 7e31f26..ad8734c 100644
--- a/src/register.cpp
+++ b/src/register.cpp
@@ -528,7 +528,10 @@ template<> struct TConvertTraits<uint64_t>
             if (reg.Scale == 1 && reg.Offset == 0) {
                 return value;
             }
-            auto res = llround((value - reg.Offset) / reg.Scale);
+            // std::stoull wraps negative numbers, but with offset they can correspond to valid register values
+            bool isNegative = str.find('-') != std::string::npos;
+            double signedValue = isNegative ? static_cast<double>(static_cast<int64_t>(value)) : value;
+            auto res = llround((signedValue - reg.Offset) / reg.Scale);
             if (res < 0) {
                 throw std::out_of_range("\"" + str + "\" after applying scale and offset is not an unsigned integer: " +
                                         std::to_string(res));
-- 
2.43.0


From 6e40315019b089b892b660081d5c79edd1ad2e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:52 +0000
Subject: [PATCH 05/36] fix: a value that can't be converted does not trigger a
 write of the previous one

---
 src/register_handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/register_handler.cpp b/src/register_handler.cpp
index c8b0c98..4ab4396 100644
--- a/src/register_handler.cpp
+++ b/src/register_handler.cpp
@@ -93,9 +93,10 @@ bool TRegisterHandler::NeedRetryAfterWriteFail()
 
 void TRegisterHandler::SetTextValue(const std::string& v)
 {
+    auto value = ConvertToRawValue(*Reg->GetConfig(), v);
     std::lock_guard<std::mutex> lock(SetValueMutex);
+    ValueToSet = value;
     Dirty = true;
-    ValueToSet = ConvertToRawValue(*Reg->GetConfig(), v);
 }
 
 PRegister TRegisterHandler::Register() const
-- 
2.43.0


From 020957b2a7eea3300e14ad703431d401125cea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 06/36] fix: registers with a big read time are not starved by
 registers with read_period

---
 src/serial_client_register_poller.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 76ba24d..16e2f0d 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -48,10 +48,13 @@ namespace
                 return false;
             }
 
-            pollLimit = std::min(MaxPollTime, pollLimit);
-            if (policy != TItemAccumulationPolicy::Force) {
+            // Reading must not be longer than the time left before high priority registers.
+            // MaxPollTime itself can be exceeded, if it is allowed by ReadAtLeastOneRegister,
+            // otherwise a register with a big read time waits for too long
+            if (policy != TItemAccumulationPolicy::Force && pollLimit <= MaxPollTime) {
                 ReadAtLeastOneRegister = false;
             }
+            pollLimit = std::min(MaxPollTime, pollLimit);
 
             RegisterRange =
                 device->ReadRegisterRange(Port, pollLimit, ReadAtLeastOneRegister, SessionTime, LastAccessedDevice);
-- 
2.43.0


From 0d7d1ef448a23ff6d97f8d2911d0931ead12ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:03 +0000
Subject: [PATCH 07/36] fix: a device does not become connected until its setup
 section is written

Reading the words of partial setup registers, or RPC requests to a device that
is not connected, made the device connected; after that its setup section was
not written any more if it had failed or had not been started.
---
 src/serial_device.cpp | 14 ++++++++++++++
 src/serial_device.h   |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/src/serial_device.cpp b/src/serial_device.cpp
index 4d7adb3..189815f 100644
--- a/src/serial_device.cpp
+++ b/src/serial_device.cpp
@@ -92,6 +92,8 @@ TSerialDevice::TSerialDevice(PDeviceConfig config, PProtocol protocol)
       LastSuccessfulCycle(),
       ConnectionState(TDeviceConnectionState::UNKNOWN),
       RemainingFailCycles(0),
+      SetupIsPending(false),
+      TransferSucceeded(false),
       SupportsHoles(true),
       SporadicOnly(true),
       WbDevice(false)
@@ -110,10 +112,18 @@ PRegisterRange TSerialDevice::CreateRegisterRange() const
 void TSerialDevice::Prepare(TPort& port, TDevicePrepareMode prepareMode)
 {
     bool deviceWasDisconnected = (ConnectionState != TDeviceConnectionState::CONNECTED);
+    // A device that was disconnected must not become connected by a successful transfer
+    // until the whole setup section is written
+    SetupIsPending = deviceWasDisconnected;
+    TransferSucceeded = false;
     try {
         PrepareImpl(port);
         if (prepareMode == TDevicePrepareMode::WITH_SETUP_IF_WAS_DISCONNECTED && deviceWasDisconnected) {
             WriteSetupRegisters(port, GetSetupItems());
+            SetupIsPending = false;
+            if (TransferSucceeded) {
+                SetTransferResult(true);
+            }
         }
     } catch (const TSerialDeviceException& ex) {
         SetTransferResult(false);
@@ -211,6 +221,10 @@ void TSerialDevice::SetTransferResult(bool ok)
     }
 
     if (ok) {
+        if (SetupIsPending) {
+            TransferSucceeded = true;
+            return;
+        }
         LastSuccessfulCycle = std::chrono::steady_clock::now();
         SetConnectionState(TDeviceConnectionState::CONNECTED);
         RemainingFailCycles = _DeviceConfig->DeviceMaxFailCycles;
diff --git a/src/serial_device.h b/src/serial_device.h
index 49061a9..814289c 100644
--- a/src/serial_device.h
+++ b/src/serial_device.h
@@ -294,6 +294,8 @@ private:
     std::chrono::steady_clock::time_point LastSuccessfulCycle;
     TDeviceConnectionState ConnectionState;
     int RemainingFailCycles;
+    bool SetupIsPending;
+    bool TransferSucceeded;
     bool SupportsHoles;
     bool SporadicOnly;
     bool WbDevice;
-- 
2.43.0


From fac094effb7f9f2b8bdbeaf4b1f3cf02db8f3521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:03 +0000
Subject: [PATCH 08/36] fix: setup registers before a partial one are written

A sequence of plain setup registers followed by a partial one at the next
address was dropped without being written.
---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index dd8a254..faf6650 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -879,7 +879,7 @@ namespace Modbus // modbus protocol common utilities
         while (startIt != endIt) {
             auto item = *startIt;
             if (item->RegisterConfig->IsPartial()) {
-                return startIt;
+                break;
             }
 
             auto address = GetUint32RegisterAddress(item->RegisterConfig->GetWriteAddress());
-- 
2.43.0


From 610a7ecc2f0358480888b804408ab0900aaecef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 09/36] fix: read words of partial setup registers of I/O
 modules from the module's own addresses

---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index faf6650..f30ed63 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -847,7 +847,7 @@ namespace Modbus // modbus protocol common utilities
                 }
                 ++it;
             }
-            ReadRegisterRange(traits, port, slaveId, range, cache, shift);
+            ReadRegisterRange(traits, port, slaveId, range, cache, false, shift);
             for (auto reg: range.RegisterList()) {
                 if (reg->GetErrorState().count()) {
                     return false;
-- 
2.43.0


From f204152df521dae3e1ff3e1884ac04ca7ba831ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 10/36] fix: failure to restore serial port settings after RPC
 does not terminate the service

---
 src/port/port.cpp        | 8 +++++++-
 src/port/serial_port.cpp | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/port/port.cpp b/src/port/port.cpp
index 1af3987..4126597 100644
--- a/src/port/port.cpp
+++ b/src/port/port.cpp
@@ -107,5 +107,11 @@ TSerialPortSettingsGuard::TSerialPortSettingsGuard(PPort port, const TSerialPort
 
 TSerialPortSettingsGuard::~TSerialPortSettingsGuard()
 {
-    Port->ResetSerialPortSettings();
+    try {
+        Port->ResetSerialPortSettings();
+    } catch (const std::exception& e) {
+        // A port with foreign settings must not be used, it gets the right ones when it is opened again
+        Warn.Log() << Port->GetDescription() << ": can't restore settings, close port: " << e.what();
+        Port->Close();
+    }
 }
diff --git a/src/port/serial_port.cpp b/src/port/serial_port.cpp
index 67179ee..665553b 100644
--- a/src/port/serial_port.cpp
+++ b/src/port/serial_port.cpp
@@ -169,7 +169,7 @@ void TSerialPort::Open()
             throw std::runtime_error("can't get termios attributes " + FormatErrno(errno));
         }
 
-        ApplySerialPortSettings(Settings);
+        ApplySerialPortSettings(InitialSettings);
 
     } catch (const std::runtime_error& e) {
         if (Fd >= 0) {
-- 
2.43.0


From 73352da0439b27c57008459273a85e820b356215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 11/36] fix: device/Set RPC with nothing to set is answered
 once

---
 src/rpc/rpc_device_set_task.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rpc/rpc_device_set_task.cpp b/src/rpc/rpc_device_set_task.cpp
index 611b3a4..9716fcc 100644
--- a/src/rpc/rpc_device_set_task.cpp
+++ b/src/rpc/rpc_device_set_task.cpp
@@ -17,6 +17,7 @@ namespace
         rpcRequest->GetParametersSetupItems(setupItems);
         if (setupItems.empty()) {
             rpcRequest->OnResult(Json::Value(Json::objectValue));
+            return;
         }
 
         std::string error;
-- 
2.43.0


From 001162c09311215fabd3dab72027a1de9685c4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 12/36] fix: RPC requests reach devices whose slave_id is
 written in hexadecimal form

---
 src/rpc/rpc_helpers.cpp      | 4 ++--
 src/rpc/rpc_port_handler.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rpc/rpc_helpers.cpp b/src/rpc/rpc_helpers.cpp
index df0f4da..b46921e 100644
--- a/src/rpc/rpc_helpers.cpp
+++ b/src/rpc/rpc_helpers.cpp
@@ -48,7 +48,7 @@ Json::Value LoadRPCRequestSchema(const std::string& schemaFilePath, const std::s
 
 void ReadModbusRegister(TPort& port, TRPCDeviceRequest& request, PRegisterConfig registerConfig, TRegisterValue& value)
 {
-    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId));
+    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId, nullptr, 0));
     auto traits = MakeModbusTraits(request.ProtocolParams.protocol->GetName());
     for (int i = 0; i <= MAX_RPC_RETRIES; ++i) {
         try {
@@ -87,7 +87,7 @@ void WriteModbusRegister(TPort& port,
                          PRegisterConfig registerConfig,
                          const TRegisterValue& value)
 {
-    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId));
+    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId, nullptr, 0));
     auto traits = MakeModbusTraits(request.ProtocolParams.protocol->GetName());
     Modbus::TRegisterCache cache;
     for (int i = 0; i <= MAX_RPC_RETRIES; ++i) {
diff --git a/src/rpc/rpc_port_handler.cpp b/src/rpc/rpc_port_handler.cpp
index 8ff6f28..0b8832d 100644
--- a/src/rpc/rpc_port_handler.cpp
+++ b/src/rpc/rpc_port_handler.cpp
@@ -61,7 +61,7 @@ void TRPCPortHandler::PortLoad(const Json::Value& request,
             rpcRequest->OnResult = onResult;
             rpcRequest->OnError = onError;
             if (clientParams.Device) {
-                rpcRequest->SlaveId = std::stoul(clientParams.Device->DeviceConfig()->SlaveId);
+                rpcRequest->SlaveId = std::stoul(clientParams.Device->DeviceConfig()->SlaveId, nullptr, 0);
                 rpcRequest->Protocol = protocol;
             }
             SerialClientTaskRunner.RunTask(request, std::make_shared<TRPCPortLoadModbusSerialClientTask>(rpcRequest));
-- 
2.43.0


From ab9ccc30e99e3315906bb929bd124fb8dc3e3db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 13/36] fix: stopping an idle RPC task executor does not hang

---
 src/rpc/rpc_port_driver_list.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rpc/rpc_port_driver_list.cpp b/src/rpc/rpc_port_driver_list.cpp
index 1025931..81510a6 100644
--- a/src/rpc/rpc_port_driver_list.cpp
+++ b/src/rpc/rpc_port_driver_list.cpp
@@ -86,7 +86,10 @@ TSerialClientTaskExecutor::TSerialClientTaskExecutor(PFeaturePort port): Port(po
 
 TSerialClientTaskExecutor::~TSerialClientTaskExecutor()
 {
-    Running = false;
+    {
+        std::unique_lock<std::mutex> lock(Mutex);
+        Running = false;
+    }
     TasksCv.notify_all();
     Thread.join();
 }
-- 
2.43.0


From aaed4cfd3f5d00eb82c0a2c97b233ed488ac2699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 14/36] fix: an RPC task executor with a queued task is not
 removed as idle

---
 src/rpc/rpc_port_driver_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpc/rpc_port_driver_list.cpp b/src/rpc/rpc_port_driver_list.cpp
index 81510a6..f8e4ab5 100644
--- a/src/rpc/rpc_port_driver_list.cpp
+++ b/src/rpc/rpc_port_driver_list.cpp
@@ -114,7 +114,7 @@ PFeaturePort TSerialClientTaskExecutor::GetPort() const
 bool TSerialClientTaskExecutor::IsIdle() const
 {
     std::unique_lock<std::mutex> lock(Mutex);
-    return Idle;
+    return Idle && Tasks.empty();
 }
 
 //==========================================================
-- 
2.43.0


From bc7fd163d6415ac45783fe314b1e3090e7ac675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 15/36] fix: a device lost during an RPC request is set up
 before it becomes connected again

---
 src/serial_device.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/serial_device.cpp b/src/serial_device.cpp
index 189815f..55d0f88 100644
--- a/src/serial_device.cpp
+++ b/src/serial_device.cpp
@@ -354,6 +354,8 @@ void TSerialDevice::SetConnectionState(TDeviceConnectionState state)
         }
         LOG(Info) << "device " << ToString() << " is connected";
     } else {
+        // Only Prepare makes the device connected again
+        SetupIsPending = true;
         LOG(Warn) << "device " << ToString() << " is disconnected";
     }
     for (auto& callback: ConnectionStateChangedCallbacks) {
-- 
2.43.0


From b00c564a3e2a867f244dac28977c0deb2ebb49f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 16/36] fix: read the word before a bit field of it is written
 for the first time

A command for a bit field that comes before the first poll of its register
was written with zeros in place of the unknown neighbour bits.
---
 src/register_handler.cpp | 21 +++++++++++++++++++++
 src/register_handler.h   |  1 +
 2 files changed, 22 insertions(+)

diff --git a/src/register_handler.cpp b/src/register_handler.cpp
index 4ab4396..24bdb98 100644
--- a/src/register_handler.cpp
+++ b/src/register_handler.cpp
@@ -44,6 +44,26 @@ void TRegisterHandler::HandleWriteErrorRetryWrite(const TRegisterValue& tempValu
     Reg->SetError(TRegister::TError::WriteError);
 }
 
+// Writing of a part of a word needs the rest of the word, and it is known only after a successful reading
+void TRegisterHandler::ReadNeighbourBits(TPort& port)
+{
+    const auto& config = *Reg->GetConfig();
+    if (!config.IsPartial() || config.IsString() || config.AccessType == TRegisterConfig::EAccessType::WRITE_ONLY ||
+        Reg->GetAvailable() != TRegisterAvailability::UNKNOWN)
+    {
+        return;
+    }
+    auto range = Reg->Device()->CreateRegisterRange();
+    if (!range->Add(port, Reg, milliseconds::max())) {
+        return;
+    }
+    try {
+        Reg->Device()->ReadRegisterRange(port, range, true);
+    } catch (const TSerialDevicePermanentRegisterException& e) {
+        LOG(Warn) << "failed to read before writing: " << Reg->ToString() << ": " << e.what();
+    }
+}
+
 void TRegisterHandler::Flush(TPort& port)
 {
     TRegisterValue tempValue; // must be volatile
@@ -52,6 +72,7 @@ void TRegisterHandler::Flush(TPort& port)
             std::lock_guard<std::mutex> lock(SetValueMutex);
             tempValue = ValueToSet;
         }
+        ReadNeighbourBits(port);
         Reg->Device()->WriteRegister(port, Reg, tempValue);
         {
             std::lock_guard<std::mutex> lock(SetValueMutex);
diff --git a/src/register_handler.h b/src/register_handler.h
index 2f370c8..4ca5b1a 100644
--- a/src/register_handler.h
+++ b/src/register_handler.h
@@ -39,6 +39,7 @@ private:
     bool WriteFail;
     std::chrono::steady_clock::time_point WriteFirstTryTime;
 
+    void ReadNeighbourBits(TPort& port);
     void HandleWriteErrorNoRetry(const TRegisterValue& tempValue, const char* msg);
     void HandleWriteErrorRetryWrite(const TRegisterValue& tempValue, const char* msg);
 };
-- 
2.43.0


From 1be2f575c1322186cb397b89a3f545e4fff8d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 17/36] fix: no select() on the descriptor of a closed port

SkipNoise() is called after a malformed response, also if the connection
of a TCP port was closed meanwhile. FD_SET(-1) is out of range, with
_FORTIFY_SOURCE the service aborts.
---
 src/port/file_descriptor_port.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/port/file_descriptor_port.cpp b/src/port/file_descriptor_port.cpp
index d8a3ed7..2306b9e 100644
--- a/src/port/file_descriptor_port.cpp
+++ b/src/port/file_descriptor_port.cpp
@@ -77,6 +77,8 @@ void TFileDescriptorPort::WriteBytes(const uint8_t* buf, int count)
 
 bool TFileDescriptorPort::Select(const chrono::microseconds& us)
 {
+    CheckPortOpen();
+
     fd_set rfds;
     struct timeval tv, *tvp = 0;
 
-- 
2.43.0


From 12a04663b235c713c5ce59dbf2a88bffd95f4b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 18/36] fix: drop stale input before a request is sent

Bytes of a late answer, or the rest of an answer that came after the port
had been closed and opened again, were read as the answer to the next
request. As its own answer then became stale input too, every following
exchange failed, or values of other registers were accepted.
---
 src/modbus_base.cpp               |  2 ++
 src/modbus_ext_common.cpp         |  1 +
 src/port/feature_port.cpp         |  5 +++++
 src/port/feature_port.h           |  1 +
 src/port/file_descriptor_port.cpp | 13 +++++++++++++
 src/port/file_descriptor_port.h   |  1 +
 src/port/port.h                   |  6 ++++++
 7 files changed, 29 insertions(+)

diff --git a/src/modbus_base.cpp b/src/modbus_base.cpp
index 591460f..f70f2c5 100644
--- a/src/modbus_base.cpp
+++ b/src/modbus_base.cpp
@@ -219,6 +219,8 @@ Modbus::TReadResult Modbus::TModbusRTUTraits::Transaction(TPort& port,
     std::copy(requestPdu.begin(), requestPdu.end(), request.begin() + 1);
     FinalizeRequest(request, slaveId);
 
+    // A late or broken answer must not be taken for the answer to the new request
+    port.DiscardInput();
     port.WriteBytes(request.data(), request.size());
 
     std::vector<uint8_t> response(GetPacketSize(expectedResponsePduSize));
diff --git a/src/modbus_ext_common.cpp b/src/modbus_ext_common.cpp
index 0c19402..8441135 100644
--- a/src/modbus_ext_common.cpp
+++ b/src/modbus_ext_common.cpp
@@ -710,6 +710,7 @@ namespace ModbusExt // modbus extension protocol declarations
         std::copy(requestPdu.begin(), requestPdu.end(), request.begin() + 1);
         FinalizeRequest(request, slaveId);
 
+        port.DiscardInput();
         port.WriteBytes(request);
 
         std::array<uint8_t, RTU_MAX_PACKET_SIZE + RTU_ARBITRATION_HEADER_MAX_BYTES> response;
diff --git a/src/port/feature_port.cpp b/src/port/feature_port.cpp
index 4aad16c..f2107a3 100644
--- a/src/port/feature_port.cpp
+++ b/src/port/feature_port.cpp
@@ -60,6 +60,11 @@ void TFeaturePort::SkipNoise()
     BasePort->SkipNoise();
 }
 
+void TFeaturePort::DiscardInput()
+{
+    BasePort->DiscardInput();
+}
+
 void TFeaturePort::SleepSinceLastInteraction(const std::chrono::microseconds& us)
 {
     BasePort->SleepSinceLastInteraction(us);
diff --git a/src/port/feature_port.h b/src/port/feature_port.h
index 616551c..b2fa08b 100644
--- a/src/port/feature_port.h
+++ b/src/port/feature_port.h
@@ -23,6 +23,7 @@ public:
                                const std::chrono::microseconds& frameTimeout,
                                TFrameCompletePred frame_complete = 0) override;
     void SkipNoise() override;
+    void DiscardInput() override;
     void SleepSinceLastInteraction(const std::chrono::microseconds& us) override;
     std::chrono::microseconds GetSendTimeBytes(double bytesNumber) const override;
     std::chrono::microseconds GetSendTimeBits(size_t bitsNumber) const override;
diff --git a/src/port/file_descriptor_port.cpp b/src/port/file_descriptor_port.cpp
index 2306b9e..4870864 100644
--- a/src/port/file_descriptor_port.cpp
+++ b/src/port/file_descriptor_port.cpp
@@ -20,6 +20,7 @@ namespace
     const chrono::milliseconds NoiseTimeout(1);
     const chrono::milliseconds ContinuousNoiseTimeout(100);
     const int ContinuousNoiseReopenNumber = 3;
+    const int MaxDiscardReads = 16;
 }
 
 TFileDescriptorPort::TFileDescriptorPort(): Fd(-1)
@@ -52,6 +53,18 @@ void TFileDescriptorPort::CheckPortOpen() const
     }
 }
 
+void TFileDescriptorPort::DiscardInput()
+{
+    uint8_t buf[255];
+    for (int i = 0; i < MaxDiscardReads; ++i) {
+        int nb = 0;
+        if (ioctl(Fd, FIONREAD, &nb) < 0 || nb <= 0 || read(Fd, buf, sizeof(buf)) <= 0) {
+            return;
+        }
+        LOG(Debug) << GetDescription(false) << ": data received before a request is discarded";
+    }
+}
+
 void TFileDescriptorPort::WriteBytes(const uint8_t* buf, int count)
 {
     auto res = write(Fd, buf, count);
diff --git a/src/port/file_descriptor_port.h b/src/port/file_descriptor_port.h
index 78ac5cd..0dde10b 100644
--- a/src/port/file_descriptor_port.h
+++ b/src/port/file_descriptor_port.h
@@ -19,6 +19,7 @@ public:
                                const std::chrono::microseconds& frameTimeout,
                                TFrameCompletePred frame_complete = 0) override;
     void SkipNoise() override;
+    void DiscardInput() override;
     void Close() override;
     void CheckPortOpen() const override;
     bool IsOpen() const override;
diff --git a/src/port/port.h b/src/port/port.h
index 8af0118..236994c 100644
--- a/src/port/port.h
+++ b/src/port/port.h
@@ -67,6 +67,12 @@ public:
 
     virtual void SkipNoise() = 0;
 
+    /**
+     * @brief Drop everything received since the last read without waiting for more
+     */
+    virtual void DiscardInput()
+    {}
+
     virtual void SleepSinceLastInteraction(const std::chrono::microseconds& us) = 0;
 
     /**
-- 
2.43.0


From 6df51c4be7f0366e42628eb91dc6af4b24afc2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 19/36] fix: suspend polling of a device in the thread that
 polls it

device/SetPoll disconnected the device from the RPC thread while the port
thread was using it and the lists of disconnected devices and devices with
enabled events (double free, lost updates). A device that was suspended just
after it had been lost was scheduled again and polled in spite of the
suspension; a resume request that came just when the suspension timed out
terminated the service.
---
 src/serial_client.cpp                 |  3 ++
 src/serial_client_register_poller.cpp | 44 ++++++++++++++++++---------
 src/serial_client_register_poller.h   |  9 ++++++
 3 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/src/serial_client.cpp b/src/serial_client.cpp
index f0449df..f0a1fe2 100644
--- a/src/serial_client.cpp
+++ b/src/serial_client.cpp
@@ -245,6 +245,7 @@ TSerialClientRegisterAndEventsReader::TSerialClientRegisterAndEventsReader(const
 void TSerialClientRegisterAndEventsReader::ClosedPortCycle(std::chrono::steady_clock::time_point currentTime,
                                                            TRegisterCallback regCallback)
 {
+    RegisterPoller.DisconnectSuspendedDevices();
     EventsReader->SetReadErrors(regCallback);
     RegisterPoller.ClosedPortCycle(currentTime, regCallback);
 }
@@ -271,6 +272,8 @@ PSerialDevice TSerialClientRegisterAndEventsReader::OpenPortCycle(TFeaturePort&
                                                                   TRegisterCallback regCallback,
                                                                   TSerialClientDeviceAccessHandler& lastAccessedDevice)
 {
+    RegisterPoller.DisconnectSuspendedDevices();
+
     // Count idle time as high priority task time to faster reach time balancing threshold
     if (LastCycleWasTooSmallToPoll) {
         TimeBalancer.UpdateSelectionTime(ceil<milliseconds>(SpentTime.GetSpentTime()), TPriority::High);
diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 16e2f0d..74e07b1 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -285,11 +285,9 @@ void TSerialClientRegisterPoller::SuspendPoll(PSerialDevice device, std::chrono:
     }
 
     DevicesWithSpendedPoll[device] = currentTime + SUSPEND_POLL_TIMEOUT;
+    // Devices are not thread-safe, so the polling thread does it
+    DevicesToDisconnect.push_back(device);
     LOG(Info) << "Device " << device->ToString() << " poll suspended";
-
-    if (device->GetConnectionState() != TDeviceConnectionState::DISCONNECTED) {
-        device->SetDisconnected();
-    }
 }
 
 void TSerialClientRegisterPoller::ResumePoll(PSerialDevice device)
@@ -300,6 +298,11 @@ void TSerialClientRegisterPoller::ResumePoll(PSerialDevice device)
         throw std::runtime_error("Device " + device->ToString() + " poll is not suspended");
     }
 
+    ResumeSuspendedPoll(device);
+}
+
+void TSerialClientRegisterPoller::ResumeSuspendedPoll(PSerialDevice device)
+{
     auto range = Devices.equal_range(device);
     for (auto it = range.first; it != range.second; ++it) {
         it->second->RescheduleAllRegisters();
@@ -312,9 +315,7 @@ void TSerialClientRegisterPoller::ResumePoll(PSerialDevice device)
 
 void TSerialClientRegisterPoller::OnDeviceConnectionStateChanged(PSerialDevice device)
 {
-    if (device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED &&
-        DevicesWithSpendedPoll.find(device) == DevicesWithSpendedPoll.end())
-    {
+    if (device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED) {
         DisconnectedDevicesWaitingForReschedule.push_back(device);
     }
 }
@@ -343,6 +344,9 @@ void TSerialClientRegisterPoller::RescheduleDisconnectedDevices()
 {
     std::unique_lock lock(Mutex);
     for (auto& device: DisconnectedDevicesWaitingForReschedule) {
+        if (DevicesWithSpendedPoll.find(device) != DevicesWithSpendedPoll.end()) {
+            continue;
+        }
         auto range = Devices.equal_range(device);
         for (auto it = range.first; it != range.second; ++it) {
             Scheduler.Remove(it->second);
@@ -355,16 +359,28 @@ void TSerialClientRegisterPoller::RescheduleDisconnectedDevices()
 
 void TSerialClientRegisterPoller::RescheduleDevicesWithSpendedPoll(std::chrono::steady_clock::time_point currentTime)
 {
+    std::unique_lock lock(Mutex);
     std::list<PSerialDevice> list;
-    {
-        std::unique_lock lock(Mutex);
-        for (auto it = DevicesWithSpendedPoll.begin(); it != DevicesWithSpendedPoll.end(); ++it) {
-            if (it->second <= currentTime) {
-                list.push_back(it->first);
-            }
+    for (auto it = DevicesWithSpendedPoll.begin(); it != DevicesWithSpendedPoll.end(); ++it) {
+        if (it->second <= currentTime) {
+            list.push_back(it->first);
         }
     }
     for (auto device: list) {
-        ResumePoll(device);
+        ResumeSuspendedPoll(device);
+    }
+}
+
+void TSerialClientRegisterPoller::DisconnectSuspendedDevices()
+{
+    std::vector<PSerialDevice> devices;
+    {
+        std::unique_lock lock(Mutex);
+        devices.swap(DevicesToDisconnect);
+    }
+    for (auto& device: devices) {
+        if (device->GetConnectionState() != TDeviceConnectionState::DISCONNECTED) {
+            device->SetDisconnected();
+        }
     }
 }
diff --git a/src/serial_client_register_poller.h b/src/serial_client_register_poller.h
index 8493395..0d79fc6 100644
--- a/src/serial_client_register_poller.h
+++ b/src/serial_client_register_poller.h
@@ -51,12 +51,19 @@ public:
     void SuspendPoll(PSerialDevice device, std::chrono::steady_clock::time_point currentTime);
     void ResumePoll(PSerialDevice device);
 
+    /**
+     * @brief Sets the devices suspended since the last call to the disconnected state.
+     *        Must be called from the thread that polls the devices
+     */
+    void DisconnectSuspendedDevices();
+
 private:
     void ScheduleNextPoll(PPollableDevice device, std::chrono::steady_clock::time_point currentTime);
     std::chrono::steady_clock::time_point GetDeadline(bool lowPriorityRateLimitIsExceeded,
                                                       const util::TSpentTimeMeter& spentTime) const;
     void OnDeviceConnectionStateChanged(PSerialDevice device);
     void RescheduleDisconnectedDevices();
+    void ResumeSuspendedPoll(PSerialDevice device);
     void RescheduleDevicesWithSpendedPoll(std::chrono::steady_clock::time_point currentTime);
 
     std::mutex Mutex;
@@ -72,4 +79,6 @@ private:
     std::vector<PSerialDevice> DisconnectedDevicesWaitingForReschedule;
 
     std::unordered_map<PSerialDevice, std::chrono::steady_clock::time_point> DevicesWithSpendedPoll;
+
+    std::vector<PSerialDevice> DevicesToDisconnect;
 };
-- 
2.43.0


From e6ef9c5ed19fcd90aec25b16e95e4d9ad033c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 20/36] fix: check the size of Modbus read responses before
 parsing them

---
 src/modbus_common.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index f30ed63..afa2b74 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -637,13 +637,25 @@ namespace Modbus // modbus protocol common utilities
                               : TRegisterValue{GetNumberRegisterValue(words, reg)};
     }
 
+    // Extracts data of a read response and checks that all requested registers are there
+    std::vector<uint8_t> ExtractReadResponseData(Modbus::EFunction function,
+                                                 const std::vector<uint8_t>& pdu,
+                                                 size_t registerCount)
+    {
+        auto data = Modbus::ExtractResponseData(function, pdu);
+        if (data.size() + 2 < Modbus::CalcResponsePDUSize(function, registerCount)) {
+            throw Modbus::TMalformedResponseError("invalid read response data size: " + std::to_string(data.size()));
+        }
+        return data;
+    }
+
     // Parses modbus response and stores result.
     void ParseReadResponse(const std::vector<uint8_t>& pdu,
                            Modbus::EFunction function,
                            TModbusRegisterRange& range,
                            Modbus::TRegisterCache& cache)
     {
-        auto data = Modbus::ExtractResponseData(function, pdu);
+        auto data = ExtractReadResponseData(function, pdu, range.GetCount());
         range.Device()->SetTransferResult(true);
         if (IsSingleBitType(range.Type())) {
             ParseSingleBitReadResponse(data, range);
@@ -1074,7 +1086,7 @@ namespace Modbus // modbus protocol common utilities
                                       responseTimeout,
                                       frameTimeout);
 
-        auto data = Modbus::ExtractResponseData(function, res.Pdu);
+        auto data = ExtractReadResponseData(function, res.Pdu, modbusRegisterCount);
         if (IsSingleBitType(reg.Type)) {
             return TRegisterValue{data[0]};
         }
-- 
2.43.0


From 24a8853d3ed4f24bd8372e7bab3f2e26b34c9b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 21/36] fix: answer requests with device_id when there is no
 valid configuration

---
 src/rpc/rpc_port_driver_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpc/rpc_port_driver_list.cpp b/src/rpc/rpc_port_driver_list.cpp
index f8e4ab5..fd8956c 100644
--- a/src/rpc/rpc_port_driver_list.cpp
+++ b/src/rpc/rpc_port_driver_list.cpp
@@ -129,7 +129,7 @@ TSerialClientParams TSerialClientTaskRunner::GetSerialClientParams(const Json::V
     TSerialClientParams params;
 
     auto deviceId = request["device_id"];
-    if (deviceId.isString()) {
+    if (SerialDriver && deviceId.isString()) {
         auto id = deviceId.asString();
         for (auto driver: SerialDriver->GetPortDrivers()) {
             for (auto device: driver->GetSerialClient()->GetDevices()) {
-- 
2.43.0


From 5aed272ee3d339cca80c7ddb197adc5097d084dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 22/36] fix: poll a sporadic register until it is read
 successfully

A failed reading of a register with a known value (for example, because of a hole in a range)
left its read error until the next event.
---
 src/pollable_device.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pollable_device.cpp b/src/pollable_device.cpp
index 057d43b..5d6dd4d 100644
--- a/src/pollable_device.cpp
+++ b/src/pollable_device.cpp
@@ -13,6 +13,18 @@ bool TRegisterComparePredicate::operator()(const PRegister& r1, const PRegister&
     return r1->GetConfig()->GetDataOffset() > r2->GetConfig()->GetDataOffset();
 }
 
+namespace
+{
+    // Reading failed and can succeed later
+    bool IsReadFailed(const TRegister& reg)
+    {
+        const auto& errorValue = reg.GetConfig()->ErrorValue;
+        return reg.GetErrorState().test(TRegister::TError::ReadError) &&
+               reg.GetAvailable() != TRegisterAvailability::UNAVAILABLE && reg.IsSupported() &&
+               !(errorValue && *errorValue == reg.GetValue());
+    }
+}
+
 TPollableDevice::TPollableDevice(PSerialDevice device,
                                  std::chrono::steady_clock::time_point currentTime,
                                  TPriority priority)
@@ -145,7 +157,7 @@ void TPollableDevice::ScheduleNextPoll(PRegister reg, std::chrono::steady_clock:
     if (reg->IsExcludedFromPolling()) {
         // If register is sporadic it must be read once to get actual value
         // Keep polling it until successful read
-        if (reg->GetValue().GetType() == TRegisterValue::ValueType::Undefined) {
+        if (reg->GetValue().GetType() == TRegisterValue::ValueType::Undefined || IsReadFailed(*reg)) {
             Registers.AddEntry(reg, currentTime + std::chrono::microseconds(1));
         }
         return;
-- 
2.43.0


From 3c1b1e96584e86cb4cf40e1674092b6ad0ba5f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 23/36] fix: poll sporadic registers that were not read yet
 when their device was lost

They stayed excluded from polling, so nothing updated them if events could not be enabled again.
---
 src/pollable_device.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pollable_device.cpp b/src/pollable_device.cpp
index 5d6dd4d..36e6240 100644
--- a/src/pollable_device.cpp
+++ b/src/pollable_device.cpp
@@ -142,10 +142,12 @@ void TPollableDevice::RescheduleAllRegisters()
             (Priority == TPriority::Low && !reg->GetConfig()->IsHighPriority()))
         {
             if (reg->GetConfig()->AccessType != TRegisterConfig::EAccessType::WRITE_ONLY) {
-                if (reg->IsExcludedFromPolling() && !Registers.Contains(reg)) {
+                if (reg->IsExcludedFromPolling()) {
                     reg->SetAvailable(TRegisterAvailability::UNKNOWN);
                     reg->IncludeInPolling();
-                    Registers.AddEntry(reg, std::chrono::steady_clock::time_point());
+                    if (!Registers.Contains(reg)) {
+                        Registers.AddEntry(reg, std::chrono::steady_clock::time_point());
+                    }
                 }
             }
         }
-- 
2.43.0


From 6b78d2671c432fb93715bfe85dfafd83a9eb9756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:00 +0000
Subject: [PATCH 24/36] fix: take back the read errors of registers read by
 events when the port is reopened

Registers excluded from polling got a read error while the port was closed
and kept it until the next event, although events are read again.
---
 src/serial_client_events_reader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serial_client_events_reader.cpp b/src/serial_client_events_reader.cpp
index ba3e4a7..b7ddaae 100644
--- a/src/serial_client_events_reader.cpp
+++ b/src/serial_client_events_reader.cpp
@@ -224,7 +224,6 @@ void TSerialClientEventsReader::ReadEventsFailed(const std::string& errorMessage
     if (ReadErrors > MaxReadErrors) {
         SetReadErrors(registerCallback);
         ReadErrors = 0;
-        ClearErrorsOnSuccessfulRead = true;
     }
 }
 
@@ -380,6 +379,7 @@ void TSerialClientEventsReader::OnDeviceConnectionStateChanged(PSerialDevice dev
 
 void TSerialClientEventsReader::SetReadErrors(TRegisterCallback callback)
 {
+    ClearErrorsOnSuccessfulRead = true;
     for (const auto& regArray: Regs) {
         for (const auto& reg: regArray.second) {
             if (reg->IsExcludedFromPolling() || reg->Device()->IsSporadicOnly()) {
@@ -401,6 +401,10 @@ void TSerialClientEventsReader::ClearReadErrors(TRegisterCallback callback)
     ClearErrorsOnSuccessfulRead = false;
     for (const auto& regArray: Regs) {
         for (const auto& reg: regArray.second) {
+            // Registers of a lost device are polled, their errors are cleared after successful reading
+            if (reg->Device()->GetConnectionState() == TDeviceConnectionState::DISCONNECTED) {
+                continue;
+            }
             if (reg->IsExcludedFromPolling() || reg->Device()->IsSporadicOnly()) {
                 reg->ClearError(TRegister::TError::ReadError);
                 if (callback) {
-- 
2.43.0


From 6e0d6d55f2cc96431f0535afc81394abc576e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 25/36] fix: check the size of the answer to the request that
 enables events

The declared data size was trusted, so bytes behind a short answer were read.
---
 src/modbus_ext_common.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modbus_ext_common.cpp b/src/modbus_ext_common.cpp
index 8441135..ecacb13 100644
--- a/src/modbus_ext_common.cpp
+++ b/src/modbus_ext_common.cpp
@@ -393,6 +393,12 @@ namespace ModbusExt // modbus extension protocol declarations
             throw Modbus::TMalformedResponseError("invalid sub command");
         }
 
+        if (res.Pdu.size() <
+            PDU_ENABLE_EVENTS_RESPONSE_DATA_POS + res.Pdu[PDU_ENABLE_EVENTS_RESPONSE_DATA_SIZE_POS])
+        {
+            throw Modbus::TMalformedResponseError("invalid packet size: " + std::to_string(res.Pdu.size()));
+        }
+
         TBitIterator dataIt(res.Pdu.data() + PDU_ENABLE_EVENTS_RESPONSE_DATA_POS - 1,
                             res.Pdu[PDU_ENABLE_EVENTS_RESPONSE_DATA_SIZE_POS]);
 
-- 
2.43.0


From c8125488dbaede828eb8605cb91b09ade4b8621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:50 +0000
Subject: [PATCH 26/36] fix: device with unavailable registers only does not
 block polling of others

All registers of a device can answer with a permanent exception before they are
read for the first time. They were dropped from device's queue, but the device
itself stayed at the top of the port's queue, so nothing else was polled.
---
 src/serial_client_register_poller.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 74e07b1..eea7a6b 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -240,6 +240,18 @@ TPollResult TSerialClientRegisterPoller::OpenPortCycle(TFeaturePort& port,
         return res;
     }
 
+    if (range->RegisterList().empty() && reader.GetDevice()->GetDeadline() > spentTime.GetStartTime()) {
+        // All waiting registers are unavailable and excluded from polling.
+        // Move the device to proper place in the queue to not block polling of other devices
+        auto device = reader.GetDevice();
+        Scheduler.Remove(device);
+        if (device->HasRegisters()) {
+            Scheduler.AddEntry(device, device->GetDeadline(), device->GetPriority());
+        }
+        res.Deadline = GetDeadline(lowPriorityRateLimitIsExceeded, spentTime);
+        return res;
+    }
+
     // There are registers waiting read, but they don't fit in allowed poll limit
     if (range->RegisterList().empty()) {
         res.NotEnoughTime = true;
-- 
2.43.0


From 80ecccd78430a2dddd50a2a31f9d8c5494fc66fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 27/36] fix: firmware info block rejected by a device is an
 error

An exception response to the info block was ignored. If the data blocks were answered
with exception 4, the update was reported as successful.
---
 src/rpc/rpc_fw_update_task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpc/rpc_fw_update_task.cpp b/src/rpc/rpc_fw_update_task.cpp
index 9de1344..bf27d30 100644
--- a/src/rpc/rpc_fw_update_task.cpp
+++ b/src/rpc/rpc_fw_update_task.cpp
@@ -97,7 +97,8 @@ namespace
                                    infoData);
         auto responsePduSize =
             Modbus::CalcResponsePDUSize(Modbus::FN_WRITE_MULTIPLE_REGISTERS, FwRegisters::FW_INFO_BLOCK_COUNT);
-        traits.Transaction(port, slaveId, pdu, responsePduSize, infoBlockTimeout, frameTimeout);
+        auto res = traits.Transaction(port, slaveId, pdu, responsePduSize, infoBlockTimeout, frameTimeout);
+        Modbus::ExtractResponseData(Modbus::FN_WRITE_MULTIPLE_REGISTERS, res.Pdu);
     }
 
     // Cf. firmware_update.py:349 write_fw_data_block()
-- 
2.43.0


From 4a4597d27e85a0bd58169446a9982fd4ec3ad53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 28/36] fix: firmware update without a release is answered with
 an error

A client got "Ok", then a failed lookup of releases was only logged,
as there was no entry in the update state to show the error in. An unknown type of
software was accepted the same way. Restore does the lookup before the response too.
---
 src/rpc/rpc_fw_update_serial_client_task.cpp | 32 ++++++++++++++------
 src/rpc/rpc_fw_update_serial_client_task.h   | 11 +++++--
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/rpc/rpc_fw_update_serial_client_task.cpp b/src/rpc/rpc_fw_update_serial_client_task.cpp
index 1b79664..21d8d1e 100644
--- a/src/rpc/rpc_fw_update_serial_client_task.cpp
+++ b/src/rpc/rpc_fw_update_serial_client_task.cpp
@@ -46,6 +46,18 @@ ISerialClientTask::TRunResult TFwUpdateSerialClientTask::Run(PFeaturePort port,
         auto traits = MakeModbusTraits(Protocol);
         auto info = ReadFwDeviceInfo(*traits, *port, SlaveId);
 
+        // Find releases before sending the response, so the client gets an error if there is nothing to flash
+        TReleasedBinary firmware;
+        TReleasedBinary bootloader;
+        if (SoftwareType == "firmware") {
+            firmware = Downloader->GetReleasedFirmware(info.FwSignature, ReleaseSuite);
+        } else if (SoftwareType == "bootloader") {
+            bootloader = Downloader->GetReleasedBootloader(info.FwSignature, ReleaseSuite);
+            firmware = Downloader->GetReleasedFirmware(info.FwSignature, ReleaseSuite);
+        } else if (SoftwareType != "component") {
+            throw std::runtime_error("Unknown software type: " + SoftwareType);
+        }
+
         // Send RPC response early — flash proceeds asynchronously from client's perspective
         if (OnResult) {
             Json::Value result;
@@ -55,13 +67,11 @@ ISerialClientTask::TRunResult TFwUpdateSerialClientTask::Run(PFeaturePort port,
 
         try {
             if (SoftwareType == "firmware") {
-                DoFirmwareUpdate(*port, *traits, info);
+                DoFirmwareUpdate(*port, *traits, info, firmware);
             } else if (SoftwareType == "bootloader") {
-                DoBootloaderUpdate(*port, *traits, info);
-            } else if (SoftwareType == "component") {
-                DoComponentsUpdate(*port, *traits, info);
+                DoBootloaderUpdate(*port, *traits, info, bootloader, firmware);
             } else {
-                throw std::runtime_error("Unknown software type: " + SoftwareType);
+                DoComponentsUpdate(*port, *traits, info);
             }
         } catch (const std::exception& e) {
             LOG(Error) << "Firmware update error: " << e.what();
@@ -96,9 +106,11 @@ ISerialClientTask::TRunResult TFwUpdateSerialClientTask::Run(PFeaturePort port,
 }
 
 // Cf. firmware_update.py:785 FirmwareUpdater.update_software() — firmware branch
-void TFwUpdateSerialClientTask::DoFirmwareUpdate(TPort& port, Modbus::IModbusTraits& traits, const TFwDeviceInfo& info)
+void TFwUpdateSerialClientTask::DoFirmwareUpdate(TPort& port,
+                                                 Modbus::IModbusTraits& traits,
+                                                 const TFwDeviceInfo& info,
+                                                 const TReleasedBinary& released)
 {
-    auto released = Downloader->GetReleasedFirmware(info.FwSignature, ReleaseSuite);
     DoFlash(port,
             traits,
             "firmware",
@@ -115,9 +127,10 @@ void TFwUpdateSerialClientTask::DoFirmwareUpdate(TPort& port, Modbus::IModbusTra
 // Cf. firmware_update.py:939 _update_bootloader()
 void TFwUpdateSerialClientTask::DoBootloaderUpdate(TPort& port,
                                                    Modbus::IModbusTraits& traits,
-                                                   const TFwDeviceInfo& info)
+                                                   const TFwDeviceInfo& info,
+                                                   const TReleasedBinary& bootloader,
+                                                   const TReleasedBinary& released)
 {
-    auto bootloader = Downloader->GetReleasedBootloader(info.FwSignature, ReleaseSuite);
     DoFlash(port,
             traits,
             "bootloader",
@@ -133,7 +146,6 @@ void TFwUpdateSerialClientTask::DoBootloaderUpdate(TPort& port,
     LOG(Info) << "Auto-restoring firmware after bootloader update for slave " << static_cast<int>(SlaveId);
     std::this_thread::sleep_for(std::chrono::seconds(2));
 
-    auto released = Downloader->GetReleasedFirmware(info.FwSignature, ReleaseSuite);
     DoFlash(port,
             traits,
             "firmware",
diff --git a/src/rpc/rpc_fw_update_serial_client_task.h b/src/rpc/rpc_fw_update_serial_client_task.h
index 27d8b61..a7bfd35 100644
--- a/src/rpc/rpc_fw_update_serial_client_task.h
+++ b/src/rpc/rpc_fw_update_serial_client_task.h
@@ -27,8 +27,15 @@ public:
                                       const std::list<PSerialDevice>& polledDevices) override;
 
 private:
-    void DoFirmwareUpdate(TPort& port, Modbus::IModbusTraits& traits, const TFwDeviceInfo& info);
-    void DoBootloaderUpdate(TPort& port, Modbus::IModbusTraits& traits, const TFwDeviceInfo& info);
+    void DoFirmwareUpdate(TPort& port,
+                          Modbus::IModbusTraits& traits,
+                          const TFwDeviceInfo& info,
+                          const TReleasedBinary& released);
+    void DoBootloaderUpdate(TPort& port,
+                            Modbus::IModbusTraits& traits,
+                            const TFwDeviceInfo& info,
+                            const TReleasedBinary& bootloader,
+                            const TReleasedBinary& released);
     void DoComponentsUpdate(TPort& port, Modbus::IModbusTraits& traits, const TFwDeviceInfo& info);
     void DoFlash(TPort& port,
                  Modbus::IModbusTraits& traits,
-- 
2.43.0


From ddfeb5bb69389628ca1c2b58856b837f396d16e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:19 +0000
Subject: [PATCH 29/36] fix: failed flashing is shown as an error for all types
 of software

An error of firmware restoring after a bootloader update and errors of components
were set for the requested type of software. The entry of actually flashed software
stayed active forever and firmware info requests for the device were rejected.
---
 src/rpc/rpc_fw_update_serial_client_task.cpp | 40 +++++++++++---------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/rpc/rpc_fw_update_serial_client_task.cpp b/src/rpc/rpc_fw_update_serial_client_task.cpp
index 21d8d1e..338c3ce 100644
--- a/src/rpc/rpc_fw_update_serial_client_task.cpp
+++ b/src/rpc/rpc_fw_update_serial_client_task.cpp
@@ -75,11 +75,6 @@ ISerialClientTask::TRunResult TFwUpdateSerialClientTask::Run(PFeaturePort port,
             }
         } catch (const std::exception& e) {
             LOG(Error) << "Firmware update error: " << e.what();
-            std::string errorId = "com.wb.serial_driver.generic_error";
-            std::string errorMsg = "Internal error. Check logs for more info";
-            Json::Value metadata;
-            metadata["exception"] = e.what();
-            State->SetError(SlaveId, PortPath, SoftwareType, errorId, errorMsg, metadata);
         }
         {
             std::lock_guard<std::mutex> lock(UpdateLock->Mutex);
@@ -206,18 +201,27 @@ void TFwUpdateSerialClientTask::DoFlash(TPort& port,
     updateInfo.ComponentModel = componentModel;
     State->Update(updateInfo);
 
-    // Download and parse firmware file
-    auto firmware = Downloader->DownloadAndParseWBFW(fwUrl);
-
-    // Flash with throttled progress updates
-    TUpdateNotifier notifier(30);
-    FlashFirmware(traits, port, SlaveId, firmware, reboot, canPreserve, [&](int percent) {
-        if (notifier.ShouldNotify(percent)) {
-            updateInfo.Progress = percent;
-            State->Update(updateInfo);
-        }
-    });
+    try {
+        // Download and parse firmware file
+        auto firmware = Downloader->DownloadAndParseWBFW(fwUrl);
+
+        // Flash with throttled progress updates
+        TUpdateNotifier notifier(30);
+        FlashFirmware(traits, port, SlaveId, firmware, reboot, canPreserve, [&](int percent) {
+            if (notifier.ShouldNotify(percent)) {
+                updateInfo.Progress = percent;
+                State->Update(updateInfo);
+            }
+        });
 
-    // Success — remove from state
-    State->Remove(SlaveId, PortPath, type);
+        // Success — remove from state
+        State->Remove(SlaveId, PortPath, type);
+    } catch (const std::exception& e) {
+        std::string errorId = "com.wb.serial_driver.generic_error";
+        std::string errorMsg = "Internal error. Check logs for more info";
+        Json::Value metadata;
+        metadata["exception"] = e.what();
+        State->SetError(SlaveId, PortPath, type, errorId, errorMsg, metadata);
+        throw;
+    }
 }
-- 
2.43.0


From 6ea4f806992a0fb5a616b8f704a86ae681f81520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:19 +0000
Subject: [PATCH 30/36] fix: do not use moved callback in error handling of
 firmware update requests

The callback is already empty, if the task runner throws.
---
 src/rpc/rpc_fw_update_handler.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rpc/rpc_fw_update_handler.cpp b/src/rpc/rpc_fw_update_handler.cpp
index 76faee3..a4b2942 100644
--- a/src/rpc/rpc_fw_update_handler.cpp
+++ b/src/rpc/rpc_fw_update_handler.cpp
@@ -254,8 +254,8 @@ void TRPCFwUpdateHandler::GetFirmwareInfo(const Json::Value& request,
                                                              ReleaseSuite,
                                                              params.PortSettings,
                                                              Downloader,
-                                                             std::move(onResult),
-                                                             std::move(onError));
+                                                             onResult,
+                                                             onError);
         SerialClientTaskRunner.RunTask(MakePortRequestJson(params), task);
     } catch (const std::exception& e) {
         onError(WBMQTT::E_RPC_SERVER_ERROR, e.what());
@@ -289,8 +289,8 @@ void TRPCFwUpdateHandler::Update(const Json::Value& request,
                                                                 Downloader,
                                                                 State,
                                                                 UpdateLock,
-                                                                std::move(onResult),
-                                                                std::move(onError));
+                                                                onResult,
+                                                                onError);
         SerialClientTaskRunner.RunTask(MakePortRequestJson(params), task);
     } catch (const std::exception& e) {
         {
@@ -335,8 +335,8 @@ void TRPCFwUpdateHandler::Restore(const Json::Value& request,
                                                      Downloader,
                                                      State,
                                                      UpdateLock,
-                                                     std::move(onResult),
-                                                     std::move(onError));
+                                                     onResult,
+                                                     onError);
         SerialClientTaskRunner.RunTask(MakePortRequestJson(params), task);
     } catch (const std::exception& e) {
         {
-- 
2.43.0


From 06f2c56f9f10f68b89f14ffe4d364aaff26c930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:38 +0000
Subject: [PATCH 31/36] fix: continuously arriving commands and requests do not
 stop polling

---
 src/serial_client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serial_client.cpp b/src/serial_client.cpp
index f0a1fe2..4224b10 100644
--- a/src/serial_client.cpp
+++ b/src/serial_client.cpp
@@ -105,6 +105,10 @@ void TSerialClient::WaitForPollAndFlush(steady_clock::time_point currentTime, st
                 }
             }
             lock.lock();
+            // Continuously arriving tasks must not prevent polling
+            if (NowFn() >= waitUntil) {
+                break;
+            }
         }
     }
     for (auto& task: retryTasks) {
-- 
2.43.0


From ca2109e2126d84d8ebbd8106a65730d574090c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:02 +0000
Subject: [PATCH 32/36] fix: commands for one control do not pile up in the
 queue

---
 src/serial_client.cpp | 18 +++++++++++++++---
 src/serial_client.h   |  1 +
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/serial_client.cpp b/src/serial_client.cpp
index 4224b10..4d87eef 100644
--- a/src/serial_client.cpp
+++ b/src/serial_client.cpp
@@ -1,4 +1,5 @@
 #include "serial_client.h"
+#include <algorithm>
 #include <chrono>
 #include <iostream>
 #include <unistd.h>
@@ -160,8 +161,16 @@ void TSerialClient::SetTextValue(PRegister reg, const std::string& value)
 {
     auto handler = GetHandler(reg);
     handler->SetTextValue(value);
-    auto serialClientTask =
-        std::make_shared<TWriteChannelSerialClientTask>(handler, RegisterReadCallback, RegisterErrorCallback);
+    PSerialClientTask serialClientTask;
+    {
+        std::unique_lock<std::mutex> lock(TasksMutex);
+        auto& writeTask = WriteTasks[reg];
+        if (!writeTask) {
+            writeTask =
+                std::make_shared<TWriteChannelSerialClientTask>(handler, RegisterReadCallback, RegisterErrorCallback);
+        }
+        serialClientTask = writeTask;
+    }
     AddTask(serialClientTask);
 }
 
@@ -213,7 +222,10 @@ void TSerialClient::AddTask(PSerialClientTask task)
 {
     {
         std::unique_lock<std::mutex> lock(TasksMutex);
-        Tasks.push_back(task);
+        // A waiting write task writes the latest value, so there is no need to have several of them
+        if (std::find(Tasks.begin(), Tasks.end(), task) == Tasks.end()) {
+            Tasks.push_back(task);
+        }
     }
     TasksCv.notify_all();
 }
diff --git a/src/serial_client.h b/src/serial_client.h
index cb792bd..a9b0ae2 100644
--- a/src/serial_client.h
+++ b/src/serial_client.h
@@ -134,6 +134,7 @@ private:
     std::mutex TasksMutex;
     std::condition_variable TasksCv;
     std::vector<PSerialClientTask> Tasks;
+    std::unordered_map<PRegister, PSerialClientTask> WriteTasks;
 };
 
 typedef std::shared_ptr<TSerialClient> PSerialClient;
-- 
2.43.0


From 14b08658c53903c96890c625a9be9b293bdb66e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:45 +0000
Subject: [PATCH 33/36] fix: a missing register does not make the registers
 read with it unavailable

---
 src/modbus_common.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index afa2b74..1034706 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -165,6 +165,12 @@ namespace Modbus // modbus protocol common utilities
                     if (!isSingleBit) {
                         return false;
                     }
+                    // Reading of single bit registers failed, maybe because some of them are not available
+                    if (RegisterList().back()->GetErrorState().test(TRegister::TError::ReadError) ||
+                        reg->GetErrorState().test(TRegister::TError::ReadError))
+                    {
+                        return false;
+                    }
                     // Disable holes for reading UNKNOWN registers
                     if (hasHoles) {
                         return false;
@@ -805,9 +811,17 @@ namespace Modbus // modbus protocol common utilities
                 range.Device()->SetSupportsHoles(false);
             } else {
                 if (!range.Device()->DeviceConfig()->ContinuePollingOnIllegalModbusException) {
-                    for (auto& reg: range.RegisterList()) {
-                        reg->SetAvailable(TRegisterAvailability::UNAVAILABLE);
-                        LOG(Warn) << reg->ToString() << " is now marked as unavailable: " << e.what();
+                    auto device = dynamic_cast<TModbusDevice*>(range.Device().get());
+                    if (range.RegisterList().size() > 1 && !(device && device->GetContinuousReadEnabled())) {
+                        // It is not known which of the registers is not available, so read them one by one
+                        for (auto& reg: range.RegisterList()) {
+                            reg->SetAvailable(TRegisterAvailability::UNKNOWN);
+                        }
+                    } else {
+                        for (auto& reg: range.RegisterList()) {
+                            reg->SetAvailable(TRegisterAvailability::UNAVAILABLE);
+                            LOG(Warn) << reg->ToString() << " is now marked as unavailable: " << e.what();
+                        }
                     }
                 }
             }
-- 
2.43.0


From dea27a7ad6175c605ff820266fcaeeedd82b3640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:10 +0000
Subject: [PATCH 34/36] fix: a running firmware update does not use the
 destroyed request handler

---
 src/rpc/rpc_fw_update_handler.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rpc/rpc_fw_update_handler.cpp b/src/rpc/rpc_fw_update_handler.cpp
index a4b2942..132a979 100644
--- a/src/rpc/rpc_fw_update_handler.cpp
+++ b/src/rpc/rpc_fw_update_handler.cpp
@@ -149,9 +149,10 @@ TRPCFwUpdateHandler::TRPCFwUpdateHandler(ITaskRunner& serialClientTaskRunner,
     Downloader = std::make_shared<TFwDownloader>(httpClient);
 
     State = std::make_shared<TFwUpdateState>(
-        [this](const std::string& topic, const std::string& payload, bool retain) {
-            if (Mqtt) {
-                Mqtt->Publish(WBMQTT::TMqttMessage(topic, payload, 0, retain));
+        // A running task may outlive the handler
+        [mqtt](const std::string& topic, const std::string& payload, bool retain) {
+            if (mqtt) {
+                mqtt->Publish(WBMQTT::TMqttMessage(topic, payload, 0, retain));
             }
         },
         STATE_TOPIC);
-- 
2.43.0


From bcb0b5f1f862835bf950406b131fb77a0b43c53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:20 +0000
Subject: [PATCH 35/36] fix: an upload of a template under another name leaves
 both files if interrupted

---
 src/rpc/rpc_templates_handler.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/rpc/rpc_templates_handler.cpp b/src/rpc/rpc_templates_handler.cpp
index 442e380..f269302 100644
--- a/src/rpc/rpc_templates_handler.cpp
+++ b/src/rpc/rpc_templates_handler.cpp
@@ -77,7 +77,8 @@ namespace
         return count;
     }
 
-    void WriteFileAtomically(const std::filesystem::path& path, const std::string& content)
+    //! Writes content to path. If oldPath isn't empty, the file it refers to is replaced by the new one
+    void WriteFileAtomically(const std::filesystem::path& path, const std::string& oldPath, const std::string& content)
     {
         auto tmpPath = path.string() + ".tmp";
         try {
@@ -90,7 +91,20 @@ namespace
                     throw std::runtime_error("Failed to write file: " + tmpPath);
                 }
             }
-            std::filesystem::rename(tmpPath, path);
+            // Give the old file the new name first to have only one file of the type at any moment
+            bool moveOld = !oldPath.empty() && path != oldPath && std::filesystem::is_regular_file(oldPath);
+            if (moveOld) {
+                std::filesystem::rename(oldPath, path);
+            }
+            try {
+                std::filesystem::rename(tmpPath, path);
+            } catch (...) {
+                if (moveOld) {
+                    std::error_code ec;
+                    std::filesystem::rename(path, oldPath, ec);
+                }
+                throw;
+            }
         } catch (const std::exception& e) {
             std::error_code ec;
             std::filesystem::remove(tmpPath, ec);
@@ -187,7 +201,7 @@ Json::Value TRPCTemplatesHandler::UploadTemplate(const Json::Value& request)
 
     std::error_code ec;
     std::filesystem::create_directories(UserTemplatesDir, ec);
-    WriteFileAtomically(finalPath, content);
+    WriteFileAtomically(finalPath, oldPath, content);
 
     try {
         for (const auto& type: Templates->UpdateTemplate(finalPath.string())) {
-- 
2.43.0


From e613d1cf866dd237536c8aeba70056dac8922cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:51 +0000
Subject: [PATCH 36/36] fix: an uploaded template is lost if it can't be read
 back

---
 src/rpc/rpc_templates_handler.cpp |  2 +-
 src/templates_map.cpp             | 19 ++++++++++++++++---
 src/templates_map.h               | 10 ++++++++++
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/rpc/rpc_templates_handler.cpp b/src/rpc/rpc_templates_handler.cpp
index f269302..58cd2c9 100644
--- a/src/rpc/rpc_templates_handler.cpp
+++ b/src/rpc/rpc_templates_handler.cpp
@@ -204,7 +204,7 @@ Json::Value TRPCTemplatesHandler::UploadTemplate(const Json::Value& request)
     WriteFileAtomically(finalPath, oldPath, content);
 
     try {
-        for (const auto& type: Templates->UpdateTemplate(finalPath.string())) {
+        for (const auto& type: Templates->UpdateTemplate(finalPath.string(), templateRoot)) {
             DeviceConfedSchemas.InvalidateCache(type);
         }
     } catch (const std::exception& e) {
diff --git a/src/templates_map.cpp b/src/templates_map.cpp
index 18784d2..d4e381d 100644
--- a/src/templates_map.cpp
+++ b/src/templates_map.cpp
@@ -354,16 +354,29 @@ std::vector<PDeviceTemplate> TTemplateMap::GetTemplates()
 
 std::vector<std::string> TTemplateMap::UpdateTemplate(const std::string& path)
 {
-    std::vector<std::string> res;
     if (!EndsWith(path, ".json")) {
-        return res;
+        return std::vector<std::string>();
     }
     std::unique_lock m(Mutex);
     auto deletedType = DeleteTemplateUnsafe(path);
+    return ReplaceTemplateUnsafe(deletedType, MakeTemplateFromJson(WBMQTT::JSON::Parse(path), path));
+}
+
+std::vector<std::string> TTemplateMap::UpdateTemplate(const std::string& path, const Json::Value& templateRoot)
+{
+    std::unique_lock m(Mutex);
+    auto deviceTemplate = MakeTemplateFromJson(templateRoot, path);
+    return ReplaceTemplateUnsafe(DeleteTemplateUnsafe(path), deviceTemplate);
+}
+
+std::vector<std::string> TTemplateMap::ReplaceTemplateUnsafe(const std::string& deletedType,
+                                                             PDeviceTemplate deviceTemplate)
+{
+    std::vector<std::string> res;
     if (!deletedType.empty()) {
         res.push_back(deletedType);
     }
-    auto deviceTemplate = MakeTemplateFromJson(WBMQTT::JSON::Parse(path), path);
+    auto path = deviceTemplate->GetFilePath();
     auto& typeArray = Templates.try_emplace(deviceTemplate->Type, std::vector<PDeviceTemplate>{}).first->second;
     if (!PreferredTemplatesDir.empty() && WBMQTT::StringStartsWith(path, PreferredTemplatesDir)) {
         if (!typeArray.empty()) {
diff --git a/src/templates_map.h b/src/templates_map.h
index cb653dd..ea900b2 100644
--- a/src/templates_map.h
+++ b/src/templates_map.h
@@ -71,6 +71,7 @@ class TTemplateMap
 
     PDeviceTemplate MakeTemplateFromJson(const Json::Value& data, const std::string& filePath);
     std::string DeleteTemplateUnsafe(const std::string& path);
+    std::vector<std::string> ReplaceTemplateUnsafe(const std::string& deletedType, PDeviceTemplate deviceTemplate);
 
 public:
     TTemplateMap() = default;
@@ -105,6 +106,15 @@ public:
      */
     std::vector<std::string> UpdateTemplate(const std::string& filePath);
 
+    /**
+     * @brief Notify about modification of template which contents is already read
+     *
+     * @param filePath path to a modified file
+     * @param templateRoot the file contents
+     * @return std::vector<std::string> Array of updated device types
+     */
+    std::vector<std::string> UpdateTemplate(const std::string& filePath, const Json::Value& templateRoot);
+
     /**
      * @brief Notify about deletion of template file
      *
-- 
2.43.0

