From 96e42d6bb8704ebdc20e07e1265130b069d03cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:41 +0000
Subject: [PATCH 01/36] fix: answer malformed and unsupported commands with an
 error instead of panicking

A truncated payload, or an opcode that is declared but not implemented,
panicked and took down the whole controller. Answer UNKNOWN_OID, as the
comment in receive_packet promises, and only log malformed data packets.
---
 src/device.rs | 77 +++++++++++++++++++++------------------------------
 1 file changed, 31 insertions(+), 46 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 9e8b915..dcc96f2 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -933,12 +933,9 @@ impl Device {
         }
     }
 
-    pub fn data_message_snd(&mut self, data: DataPacket) -> ControlPacket {
+    pub fn data_message_snd(&mut self, data: DataPacket) -> anyhow::Result<ControlPacket> {
         log::debug!("[{}] data_message_send", self.handle);
-        match data
-            .specialize()
-            .expect("failed to parse Data packet child")
-        {
+        Ok(match data.specialize()? {
             DataPacketChild::DataMessageSnd(data_msg_snd) => {
                 let session_token = data_msg_snd.session_handle;
                 if let Some(session) = self.session_mut(session_token) {
@@ -966,13 +963,13 @@ impl Device {
                 .try_into()
                 .unwrap()
             }
-            _ => {
-                unimplemented!()
-            }
-        }
+            DataPacketChild::None => anyhow::bail!("unsupported Data packet format"),
+        })
     }
 
-    fn receive_command(&mut self, cmd: ControlPacket) -> ControlPacket {
+    /// Handle a command. Returns the response to the command, or an error
+    /// if the command is either malformed or not supported.
+    fn receive_command(&mut self, cmd: ControlPacket) -> anyhow::Result<ControlPacket> {
         use AndroidPacketChild::*;
         use ControlPacketChild::*;
         use CorePacketChild::*;
@@ -983,29 +980,23 @@ impl Device {
         // Reset command. The controller responds with Device Status
         // Notification with DEVICE_STATE_ERROR otherwise.
         if !self.is_reset && !cmd.is_core_device_reset_cmd() {
-            return uci::CoreDeviceStatusNtf {
+            return Ok(uci::CoreDeviceStatusNtf {
                 device_state: DeviceState::DeviceStateError,
             }
             .try_into()
-            .unwrap();
+            .unwrap());
         }
 
-        match cmd
-            .specialize()
-            .expect("Failed to parse Control packet child")
-        {
-            CorePacket(cmd) => match cmd.specialize().expect("Failed to parse Core packet child") {
+        Ok(match cmd.specialize()? {
+            CorePacket(cmd) => match cmd.specialize()? {
                 CoreDeviceResetCmd(cmd) => self.core_device_reset(cmd).try_into().unwrap(),
                 CoreGetDeviceInfoCmd(cmd) => self.core_get_device_info(cmd).try_into().unwrap(),
                 CoreGetCapsInfoCmd(cmd) => self.core_get_caps_info(cmd).try_into().unwrap(),
                 CoreSetConfigCmd(cmd) => self.core_set_config(cmd).try_into().unwrap(),
                 CoreGetConfigCmd(cmd) => self.core_get_config(cmd).try_into().unwrap(),
-                _ => unimplemented!("Unsupported Core oid {:?}", cmd.oid),
+                _ => anyhow::bail!("Unsupported Core oid {:?}", cmd.oid),
             },
-            SessionConfigPacket(cmd) => match cmd
-                .specialize()
-                .expect("Failed to parse Session Config packet child")
-            {
+            SessionConfigPacket(cmd) => match cmd.specialize()? {
                 SessionInitCmd(cmd) => self.session_init(cmd).try_into().unwrap(),
                 SessionDeinitCmd(cmd) => self.session_deinit(cmd).try_into().unwrap(),
                 SessionGetCountCmd(cmd) => self.session_get_count(cmd).try_into().unwrap(),
@@ -1016,30 +1007,24 @@ impl Device {
                     .session_update_controller_multicast_list(cmd)
                     .try_into()
                     .unwrap(),
-                _ => unimplemented!("Unsupported Session Config oid {:?}", cmd.oid),
+                _ => anyhow::bail!("Unsupported Session Config oid {:?}", cmd.oid),
             },
-            SessionControlPacket(cmd) => match cmd
-                .specialize()
-                .expect("Failed to parse Session Control packet child")
-            {
+            SessionControlPacket(cmd) => match cmd.specialize()? {
                 SessionStartCmd(cmd) => self.session_start(cmd).try_into().unwrap(),
                 SessionStopCmd(cmd) => self.session_stop(cmd).try_into().unwrap(),
                 SessionGetRangingCountCmd(cmd) => {
                     self.session_get_ranging_count(cmd).try_into().unwrap()
                 }
-                _ => unimplemented!("Unsupported Session Control oid {:?}", cmd.oid),
+                _ => anyhow::bail!("Unsupported Session Control oid {:?}", cmd.oid),
             },
-            AndroidPacket(cmd) => match cmd
-                .specialize()
-                .expect("Failed to parse Android packet child")
-            {
+            AndroidPacket(cmd) => match cmd.specialize()? {
                 AndroidSetCountryCodeCmd(cmd) => {
                     self.android_set_country_code(cmd).try_into().unwrap()
                 }
                 AndroidGetPowerStatsCmd(cmd) => {
                     self.android_get_power_stats(cmd).try_into().unwrap()
                 }
-                _ => unimplemented!("Unsupported Android oid {:?}", cmd.oid),
+                _ => anyhow::bail!("Unsupported Android oid {:?}", cmd.oid),
             },
             ControlPacketChild::None
                 if matches!(
@@ -1068,21 +1053,24 @@ impl Device {
                     ],
                 }
             }
-        }
+        })
     }
 
     pub fn receive_packet(&mut self, packet: Vec<u8>) {
         let mt = parse_message_type(packet[0]);
         match mt {
-            MessageType::Data => match DataPacket::decode_full(&packet) {
-                Ok(packet) => {
-                    let notification = self.data_message_snd(packet);
-                    self.send_control(notification)
-                }
+            MessageType::Data => match DataPacket::decode_full(&packet)
+                .map_err(anyhow::Error::from)
+                .and_then(|packet| self.data_message_snd(packet))
+            {
+                Ok(notification) => self.send_control(notification),
                 Err(err) => log::error!("failed to parse incoming Data packet: {}", err),
             },
             MessageType::Command => {
-                match ControlPacket::decode_full(&packet) {
+                match ControlPacket::decode_full(&packet)
+                    .map_err(anyhow::Error::from)
+                    .and_then(|cmd| self.receive_command(cmd))
+                {
                     // Parsing error. Determine what error response should be
                     // returned to the host:
                     // - response and notifications are ignored, no response
@@ -1091,7 +1079,8 @@ impl Device {
                     //      always returned. That means that malformed commands
                     //      get the same status code, instead of
                     //      STATUS_SYNTAX_ERROR.
-                    Err(_) => {
+                    Err(err) => {
+                        log::error!("failed to handle incoming command: {}", err);
                         let group_id = packet[0] & 0xf;
                         let opcode_id = packet[1] & 0x3f;
 
@@ -1112,11 +1101,7 @@ impl Device {
                         self.send_raw_control(response)
                     }
 
-                    // Parsing success, ignore non command packets.
-                    Ok(cmd) => {
-                        let response = self.receive_command(cmd);
-                        self.send_control(response)
-                    }
+                    Ok(response) => self.send_control(response),
                 }
             }
 
-- 
2.43.0


From 039b9634854c820661b4f7541e5d8b84739d2108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:04 +0000
Subject: [PATCH 02/36] fix: do not panic on device info and configuration
 commands while ranging

CORE_GET_DEVICE_INFO and CORE_SET_CONFIG asserted DEVICE_STATE_READY: a host
sending them with an active session took down the whole controller.
---
 src/device.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index dcc96f2..148a7ec 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -235,9 +235,7 @@ impl Device {
     }
 
     fn core_get_device_info(&self, _cmd: CoreGetDeviceInfoCmd) -> CoreGetDeviceInfoRsp {
-        // TODO: Implement a fancy build time state machine instead of crash at runtime
         log::debug!("[{}] GetDeviceInfo", self.handle);
-        assert_eq!(self.state, DeviceState::DeviceStateReady);
         CoreGetDeviceInfoRsp {
             status: uci::Status::Ok,
             uci_version: UCI_VERSION,
@@ -267,7 +265,14 @@ impl Device {
 
     pub fn core_set_config(&mut self, cmd: CoreSetConfigCmd) -> CoreSetConfigRsp {
         log::debug!("[{}] SetConfig", self.handle);
-        assert_eq!(self.state, DeviceState::DeviceStateReady); // UCI 6.3
+
+        // [UCI] 6.3 The device configuration can be set in DEVICE_STATE_READY only.
+        if self.state != DeviceState::DeviceStateReady {
+            return CoreSetConfigRsp {
+                status: uci::Status::Rejected,
+                parameters: vec![],
+            };
+        }
 
         // [UCI] 6.3.1 Setting the Configuration
         // The UWBS shall respond with CORE_SET_CONFIG_RSP setting the Status
-- 
2.43.0


From 546d99b3e1705f9ea92e82c76916484c859ccbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:04 +0000
Subject: [PATCH 03/36] fix: report the actual device state in CORE_GET_CONFIG

The DEVICE_STATE parameter always read back as DEVICE_STATE_ERROR.
---
 src/device.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 148a7ec..ee4658e 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -79,7 +79,6 @@ pub const DEFAULT_CAPS_INFO: &[(CapTlvType, &[u8])] = &[
 
 /// [UCI] 8.2 Device Configuration Parameters
 pub struct DeviceConfig {
-    device_state: DeviceState,
     // This config is used to enable/disable the low power mode.
     //   0x00 = Disable low power mode
     //   0x01 = Enable low power mode (default)
@@ -92,7 +91,6 @@ pub struct DeviceConfig {
 impl Default for DeviceConfig {
     fn default() -> Self {
         DeviceConfig {
-            device_state: DeviceState::DeviceStateError,
             low_power_mode: true,
         }
     }
@@ -328,7 +326,7 @@ impl Device {
             match id {
                 ConfigParameterId::DeviceState => valid_parameters.push(ConfigParameter {
                     id,
-                    value: vec![self.config.device_state.into()],
+                    value: vec![self.state.into()],
                 }),
                 ConfigParameterId::LowPowerMode => valid_parameters.push(ConfigParameter {
                     id,
-- 
2.43.0


From 2f7893dd03b0a735e313ecd597e0869ffce8c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:04 +0000
Subject: [PATCH 04/36] fix: reject the configuration of unsupported session
 types instead of panicking

---
 src/device.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index ee4658e..bab57a1 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -424,10 +424,15 @@ impl Device {
             };
         };
 
-        assert!(
-            session.session_type == SessionType::FiraRangingSession
-                || session.session_type == SessionType::FiraRangingAndInBandDataSession
-        );
+        if session.session_type != SessionType::FiraRangingSession
+            && session.session_type != SessionType::FiraRangingAndInBandDataSession
+        {
+            log::error!("unsupported session type {:?}", session.session_type);
+            return SessionSetAppConfigRsp {
+                status: uci::Status::Rejected,
+                cfg_status: vec![],
+            };
+        }
 
         if session.state == SessionState::SessionStateActive {
             const IMMUTABLE_PARAMETERS: &[AppConfigTlvType] = &[AppConfigTlvType::AoaResultReq];
-- 
2.43.0


From dba9df0d37472b300169a05e466b1308ef5fb61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:04 +0000
Subject: [PATCH 05/36] fix: refuse addresses in the unsupported MAC address
 mode 1 instead of panicking

---
 src/app_config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app_config.rs b/src/app_config.rs
index 40ac595..9fbcb57 100644
--- a/src/app_config.rs
+++ b/src/app_config.rs
@@ -199,14 +199,14 @@ impl AppConfig {
             uci::AppConfigTlvType::DeviceMacAddress => {
                 self.device_mac_address = Some(match self.mac_address_mode {
                     uci::MacAddressMode::Mode0 => MacAddress::Short(value.try_into()?),
-                    uci::MacAddressMode::Mode1 => unimplemented!(),
+                    uci::MacAddressMode::Mode1 => anyhow::bail!("unsupported mac_address_mode"),
                     uci::MacAddressMode::Mode2 => MacAddress::Extended(value.try_into()?),
                 })
             }
             uci::AppConfigTlvType::DstMacAddress => {
                 let mac_address_size = match self.mac_address_mode {
                     uci::MacAddressMode::Mode0 => 2,
-                    uci::MacAddressMode::Mode1 => unimplemented!(),
+                    uci::MacAddressMode::Mode1 => anyhow::bail!("unsupported mac_address_mode"),
                     uci::MacAddressMode::Mode2 => 8,
                 };
                 if value.len() != self.number_of_controlees as usize * mac_address_size {
@@ -222,7 +222,7 @@ impl AppConfig {
                     .chunks(mac_address_size)
                     .map(|value| match self.mac_address_mode {
                         uci::MacAddressMode::Mode0 => MacAddress::Short(value.try_into().unwrap()),
-                        uci::MacAddressMode::Mode1 => unimplemented!(),
+                        uci::MacAddressMode::Mode1 => unreachable!(),
                         uci::MacAddressMode::Mode2 => {
                             MacAddress::Extended(value.try_into().unwrap())
                         }
-- 
2.43.0


From 63d85c55a10e1296409c33ed136b26ee672ca669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:05 +0000
Subject: [PATCH 06/36] fix: keep the existing session when refusing a
 duplicate SESSION_INIT

The refused command replaced the existing session, whatever its state, by one
in SESSION_STATE_DEINIT that could not be used.
---
 src/device.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index bab57a1..489df6f 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -361,18 +361,13 @@ impl Device {
 
         let status = if self.sessions.len() >= MAX_SESSION {
             uci::Status::ErrorMaxSessionsExceeded
+        } else if self.sessions.contains_key(&session_id) {
+            uci::Status::ErrorSessionDuplicate
         } else {
-            match self.sessions.insert(
-                session_id,
-                Session::new(session_id, session_type, self.handle, self.tx.clone()),
-            ) {
-                Some(_) => uci::Status::ErrorSessionDuplicate,
-                None => {
-                    // Should not fail
-                    self.session_mut(session_id).unwrap().init();
-                    uci::Status::Ok
-                }
-            }
+            let mut session = Session::new(session_id, session_type, self.handle, self.tx.clone());
+            session.init();
+            self.sessions.insert(session_id, session);
+            uci::Status::Ok
         };
 
         SessionInitRsp { status }
-- 
2.43.0


From 3074d0d4529be56f39d03b1e0648533a8dacaf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:10 +0000
Subject: [PATCH 07/36] fix: send status notifications in order, right after
 the response

Notifications were sent from detached tasks after a delay of 1 or 5ms, hence
could overtake each other, or the response, and panicked when the host was
gone. Queue them on the device until the response is sent.
---
 src/device.rs  | 74 ++++++++++++++++++++++++++++----------------------
 src/lib.rs     |  2 ++
 src/session.rs | 33 +++++++++-------------
 3 files changed, 57 insertions(+), 52 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 489df6f..384121d 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -17,7 +17,6 @@ use crate::MacAddress;
 use crate::PicaCommand;
 
 use std::collections::HashMap;
-use std::time::Duration;
 
 use pdl_runtime::Packet;
 use tokio::sync::mpsc;
@@ -109,6 +108,10 @@ pub struct Device {
     state: DeviceState,
     sessions: HashMap<u32, Session>,
     pub tx: mpsc::UnboundedSender<UciPacket>,
+    /// Status notifications, held back until the response to the command
+    /// that caused them is sent.
+    ntf_tx: mpsc::UnboundedSender<UciPacket>,
+    ntf_rx: mpsc::UnboundedReceiver<UciPacket>,
     pica_tx: mpsc::Sender<PicaCommand>,
     country_code: [u8; 2],
     pub n_active_sessions: usize,
@@ -121,6 +124,7 @@ impl Device {
         tx: mpsc::UnboundedSender<UciPacket>,
         pica_tx: mpsc::Sender<PicaCommand>,
     ) -> Self {
+        let (ntf_tx, ntf_rx) = mpsc::unbounded_channel();
         Device {
             handle,
             mac_address,
@@ -129,6 +133,8 @@ impl Device {
             state: DeviceState::DeviceStateError, // Will be overwitten
             sessions: Default::default(),
             tx,
+            ntf_tx,
+            ntf_rx,
             pica_tx,
             country_code: Default::default(),
             n_active_sessions: 0,
@@ -143,22 +149,24 @@ impl Device {
 
         // Send status notification
         self.state = device_state;
-        let tx = self.tx.clone();
-        tokio::spawn(async move {
-            time::sleep(Duration::from_millis(5)).await;
-            tx.send(
-                CoreDeviceStatusNtf { device_state }
-                    .encode_to_vec()
-                    .unwrap(),
-            )
-            .unwrap()
-        });
+        let _ = self.ntf_tx.send(
+            CoreDeviceStatusNtf { device_state }
+                .encode_to_vec()
+                .unwrap(),
+        );
     }
 
     pub fn init(&mut self) {
         self.set_state(DeviceState::DeviceStateReady);
     }
 
+    /// Send the pending status notifications to the host.
+    pub fn send_notifications(&mut self) {
+        while let Ok(packet) = self.ntf_rx.try_recv() {
+            self.send_raw_control(packet)
+        }
+    }
+
     pub fn session(&self, session_id: u32) -> Option<&Session> {
         self.sessions.get(&session_id)
     }
@@ -218,12 +226,18 @@ impl Device {
         log::debug!("[{}] DeviceReset", self.handle);
         log::debug!("  reset_config={:?}", reset_config);
 
-        *self = Device::new(
+        let mut device = Device::new(
             self.handle,
             self.mac_address,
             self.tx.clone(),
             self.pica_tx.clone(),
         );
+        // Keep the notifications for the deleted sessions.
+        self.sessions.clear();
+        while let Ok(packet) = self.ntf_rx.try_recv() {
+            let _ = device.ntf_tx.send(packet);
+        }
+        *self = device;
         self.is_reset = true;
         self.init();
 
@@ -364,7 +378,8 @@ impl Device {
         } else if self.sessions.contains_key(&session_id) {
             uci::Status::ErrorSessionDuplicate
         } else {
-            let mut session = Session::new(session_id, session_type, self.handle, self.tx.clone());
+            let mut session =
+                Session::new(session_id, session_type, self.handle, self.ntf_tx.clone());
             session.init();
             self.sessions.insert(session_id, session);
             uci::Status::Ok
@@ -378,15 +393,16 @@ impl Device {
         log::debug!("[{}] Session deinit", self.handle);
         log::debug!("  session_id=0x{:x}", session_id);
 
-        let status = match self.sessions.get_mut(&session_id) {
+        let status = match self.sessions.remove(&session_id) {
             Some(session) => {
-                if session.state == SessionState::SessionStateActive {
+                let was_active = session.state == SessionState::SessionStateActive;
+                drop(session);
+                if was_active {
                     self.n_active_sessions -= 1;
                     if self.n_active_sessions == 0 {
                         self.set_state(DeviceState::DeviceStateReady);
                     }
                 }
-                self.sessions.remove(&session_id);
                 uci::Status::Ok
             }
             None => uci::Status::ErrorSessionNotExist,
@@ -763,22 +779,14 @@ impl Device {
                 // corresponding Controlee status shall be set to STATUS_OK_MULTICAST_LIST_UPDATE
                 // in the Status List of SESSION_UPDATE_CONTROLLER_MULTICAST_LIST_NTF.
                 if session.state == SessionState::SessionStateActive {
-                    let tx = self.tx.clone();
-                    tokio::spawn(async move {
-                        // Sleep for 5ms to make sure the notification is not being
-                        // sent before the response.
-                        // TODO(#84) remove the sleep.
-                        time::sleep(Duration::from_millis(5)).await;
-                        tx.send(
-                            SessionUpdateControllerMulticastListNtf {
-                                controlee_status: controlee_status_ntf,
-                                session_token: session_handle,
-                            }
-                            .encode_to_vec()
-                            .unwrap(),
-                        )
-                        .unwrap()
-                    });
+                    let _ = self.ntf_tx.send(
+                        SessionUpdateControllerMulticastListNtf {
+                            controlee_status: controlee_status_ntf,
+                            session_token: session_handle,
+                        }
+                        .encode_to_vec()
+                        .unwrap(),
+                    );
                 }
             }
         }
@@ -1112,6 +1120,8 @@ impl Device {
             // by the controller.
             _ => log::warn!("received unexpected packet of MT {:?}", mt),
         }
+
+        self.send_notifications()
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 560f28d..8a68a8a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -357,6 +357,7 @@ impl Pica {
         let mac_address = MacAddress::Short((handle as u16).to_be_bytes());
         let mut device = Device::new(handle, mac_address, packet_tx, self.command_tx.clone());
         device.init();
+        device.send_notifications();
 
         self.send_event(PicaEvent::Connected {
             handle,
@@ -579,6 +580,7 @@ impl Pica {
                 if device.n_active_sessions == 0 {
                     device.set_state(DeviceState::DeviceStateReady);
                 }
+                device.send_notifications();
             } else {
                 log::warn!("stop_controlee_ranging: session is not active !");
             }
diff --git a/src/session.rs b/src/session.rs
index 656ad99..67bfbe2 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -20,10 +20,8 @@ use crate::packets::uci::{self, *};
 use crate::{AppConfig, MacAddress};
 use bytes::BytesMut;
 use pdl_runtime::Packet;
-use std::time::Duration;
 use tokio::sync::mpsc;
 use tokio::task::JoinHandle;
-use tokio::time;
 
 use super::UciPacket;
 
@@ -39,7 +37,8 @@ pub struct Session {
     pub sequence_number: u32,
     pub app_config: AppConfig,
     pub ranging_task: Option<JoinHandle<()>>,
-    tx: mpsc::UnboundedSender<UciPacket>,
+    /// Notification queue of the device.
+    ntf_tx: mpsc::UnboundedSender<UciPacket>,
 }
 
 impl Session {
@@ -47,7 +46,7 @@ impl Session {
         id: u32,
         session_type: SessionType,
         device_handle: usize,
-        tx: mpsc::UnboundedSender<UciPacket>,
+        ntf_tx: mpsc::UnboundedSender<UciPacket>,
     ) -> Self {
         Self {
             state: SessionState::SessionStateDeinit,
@@ -58,7 +57,7 @@ impl Session {
             sequence_number: 0,
             app_config: AppConfig::default(),
             ranging_task: None,
-            tx,
+            ntf_tx,
         }
     }
 
@@ -70,21 +69,15 @@ impl Session {
 
         // Send status notification
         self.state = session_state;
-        let tx = self.tx.clone();
-        let session_id = self.id;
-        tokio::spawn(async move {
-            time::sleep(Duration::from_millis(1)).await;
-            tx.send(
-                SessionStatusNtf {
-                    session_token: session_id,
-                    session_state,
-                    reason_code: reason_code.into(),
-                }
-                .encode_to_vec()
-                .unwrap(),
-            )
-            .unwrap()
-        });
+        let _ = self.ntf_tx.send(
+            SessionStatusNtf {
+                session_token: self.id,
+                session_state,
+                reason_code: reason_code.into(),
+            }
+            .encode_to_vec()
+            .unwrap(),
+        );
     }
 
     pub fn get_dst_mac_address(&self) -> &[MacAddress] {
-- 
2.43.0


From 012df93e2956d5835716c5d7bf4e8871cf787994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:12 +0000
Subject: [PATCH 08/36] fix: stop ranging when the controlee list of an active
 session becomes empty

The session moved to IDLE but kept its ranging task, and the device remained
ACTIVE. Starting the session again hit an assertion.
---
 src/device.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 384121d..cece4e4 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -796,10 +796,18 @@ impl Device {
         // SESSION_STATE_IDLE by sending the SESSION_STATUS_NTF with Reason Code
         // set to ERROR_INVALID_NUM_OF_CONTROLEES.
         if session.app_config.dst_mac_address.is_empty() {
+            let was_active = session.state == SessionState::SessionStateActive;
+            session.stop_ranging_task();
             session.set_state(
                 SessionState::SessionStateIdle,
                 ReasonCode::ErrorInvalidNumOfControlees,
-            )
+            );
+            if was_active {
+                self.n_active_sessions -= 1;
+                if self.n_active_sessions == 0 {
+                    self.set_state(DeviceState::DeviceStateReady);
+                }
+            }
         }
         SessionUpdateControllerMulticastListRsp {
             status,
-- 
2.43.0


From caaa3ec90b50f0c4cb324ad87baf4d66c9536fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:12 +0000
Subject: [PATCH 09/36] fix: do not add controlees to a list already over the
 maximum size

SESSION_SET_APP_CONFIG accepts more than eight destination addresses.
---
 src/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index cece4e4..f5e5e51 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -707,7 +707,7 @@ impl Device {
                         });
                     } else {
                         if !dst_addresses.contains(&controlee.short_address) {
-                            if dst_addresses.len() == MAX_NUMBER_OF_CONTROLEES {
+                            if dst_addresses.len() >= MAX_NUMBER_OF_CONTROLEES {
                                 status = uci::Status::ErrorMulticastListFull;
                                 update_status = MulticastUpdateStatus::ErrorMulticastListFull;
                             } else {
-- 
2.43.0


From 3d2d1517d6ba9943e323fcfa1c125c9c0a2559e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:29 +0000
Subject: [PATCH 10/36] fix: notify the controlees refused because sub-session
 keys do not apply

The per-controlee statuses were collected for the notification required by
the specification, but the notification was never sent.
---
 src/device.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/device.rs b/src/device.rs
index f5e5e51..75ab1c2 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -728,6 +728,16 @@ impl Device {
                         });
                     }
                 });
+                if !controlee_status_ntf.is_empty() {
+                    let _ = self.ntf_tx.send(
+                        SessionUpdateControllerMulticastListNtf {
+                            controlee_status: controlee_status_ntf,
+                            session_token: session_handle,
+                        }
+                        .encode_to_vec()
+                        .unwrap(),
+                    );
+                }
             }
             UpdateMulticastListAction::RemoveControlee => {
                 new_controlees.iter().for_each(|controlee: &Controlee| {
-- 
2.43.0


From b647a515e00bce8060c048f0a37db81270e630fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:03 +0000
Subject: [PATCH 11/36] fix: ignore ranging rounds of disconnected devices and
 stopped sessions

A round already queued when its device was disconnected, or its session
deleted, took down the whole controller; for a stopped session it was still
reported to the host.
---
 src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8a68a8a..5406ea8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -408,8 +408,17 @@ impl Pica {
         log::debug!("[{}] Ranging event", device_handle);
         log::debug!("  session_id={}", session_id);
 
-        let device = self.get_device(device_handle).unwrap();
-        let session = device.session(session_id).unwrap();
+        // Ignore the rounds that were already pending when the device was
+        // disconnected, or the session stopped.
+        let Some(device) = self.get_device(device_handle) else {
+            return;
+        };
+        let Some(session) = device.session(session_id) else {
+            return;
+        };
+        if session.session_state() != SessionState::SessionStateActive {
+            return;
+        }
 
         let mut data_transfer = Vec::new();
         let mut measurements = Vec::new();
-- 
2.43.0


From 4bdce623fac047f7c83b40a0f3530ba4c88d8cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:06 +0000
Subject: [PATCH 12/36] fix: drop the rounds of a previous run when ranging is
 restarted

A round queued before a stop, and handled after a restart of the session, was
reported as a round of the new run, before its first interval elapsed.
---
 src/device.rs  |  3 +++
 src/lib.rs     |  4 +++-
 src/session.rs | 16 ++++++++++++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 75ab1c2..3f1403c 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -17,6 +17,7 @@ use crate::MacAddress;
 use crate::PicaCommand;
 
 use std::collections::HashMap;
+use std::sync::atomic::Ordering;
 
 use pdl_runtime::Packet;
 use tokio::sync::mpsc;
@@ -849,9 +850,11 @@ impl Device {
 
         let tx = self.pica_tx.clone();
         let handle = self.handle;
+        let pending_rounds = session.pending_rounds.clone();
         session.ranging_task = Some(tokio::spawn(async move {
             loop {
                 time::sleep(ranging_interval).await;
+                pending_rounds.fetch_add(1, Ordering::SeqCst);
                 tx.send(PicaCommand::Ranging(handle, session_id))
                     .await
                     .unwrap();
diff --git a/src/lib.rs b/src/lib.rs
index 5406ea8..b193c55 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -416,7 +416,9 @@ impl Pica {
         let Some(session) = device.session(session_id) else {
             return;
         };
-        if session.session_state() != SessionState::SessionStateActive {
+        if session.session_state() != SessionState::SessionStateActive
+            || !session.take_pending_round()
+        {
             return;
         }
 
diff --git a/src/session.rs b/src/session.rs
index 67bfbe2..dea86de 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -20,6 +20,8 @@ use crate::packets::uci::{self, *};
 use crate::{AppConfig, MacAddress};
 use bytes::BytesMut;
 use pdl_runtime::Packet;
+use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::Arc;
 use tokio::sync::mpsc;
 use tokio::task::JoinHandle;
 
@@ -37,6 +39,9 @@ pub struct Session {
     pub sequence_number: u32,
     pub app_config: AppConfig,
     pub ranging_task: Option<JoinHandle<()>>,
+    /// Number of rounds requested by the current ranging task, and not
+    /// executed yet.
+    pub pending_rounds: Arc<AtomicUsize>,
     /// Notification queue of the device.
     ntf_tx: mpsc::UnboundedSender<UciPacket>,
 }
@@ -57,6 +62,7 @@ impl Session {
             sequence_number: 0,
             app_config: AppConfig::default(),
             ranging_task: None,
+            pending_rounds: Default::default(),
             ntf_tx,
         }
     }
@@ -122,6 +128,16 @@ impl Session {
             handle.abort();
             self.ranging_task = None;
         }
+        self.pending_rounds = Default::default();
+    }
+
+    /// Consume one round requested by the current ranging task. Returns
+    /// false if there is none, that is if the round was requested before
+    /// ranging was last stopped.
+    pub fn take_pending_round(&self) -> bool {
+        self.pending_rounds
+            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |n| n.checked_sub(1))
+            .is_ok()
     }
 
     pub fn data_message_snd(&mut self, data: DataMessageSnd) -> ControlPacket {
-- 
2.43.0


From 2971bfd47d3b11fdc720cc6e49d40cc6e2184b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:39 +0000
Subject: [PATCH 13/36] fix: report measurements of peers with an extended
 address

A ranging round with such a peer panicked and took down the whole controller.
---
 src/lib.rs | 95 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 70 insertions(+), 25 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b193c55..49d2a47 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -156,14 +156,18 @@ struct Anchor {
     mac_address: MacAddress,
 }
 
-fn make_measurement(
-    mac_address: &MacAddress,
+/// Measurement of a peer in a ranging round.
+struct PeerMeasurement {
+    mac_address: MacAddress,
     local: RangingMeasurement,
     remote: RangingMeasurement,
-) -> ShortAddressTwoWayRangingMeasurement {
-    if let MacAddress::Short(address) = mac_address {
+}
+
+impl PeerMeasurement {
+    fn to_short(&self) -> ShortAddressTwoWayRangingMeasurement {
+        let (local, remote) = (&self.local, &self.remote);
         ShortAddressTwoWayRangingMeasurement {
-            mac_address: u16::from_le_bytes(*address),
+            mac_address: u64::from(self.mac_address) as u16,
             status: uci::Status::Ok,
             nlos: 0, // in Line Of Sight
             distance: local.range,
@@ -178,8 +182,26 @@ fn make_measurement(
             slot_index: 0,
             rssi: u8::MAX,
         }
-    } else {
-        panic!("Extended address is not supported.")
+    }
+
+    fn to_extended(&self) -> ExtendedAddressTwoWayRangingMeasurement {
+        let (local, remote) = (&self.local, &self.remote);
+        ExtendedAddressTwoWayRangingMeasurement {
+            mac_address: self.mac_address.into(),
+            status: uci::Status::Ok,
+            nlos: 0,
+            distance: local.range,
+            aoa_azimuth: local.azimuth as u16,
+            aoa_azimuth_fom: 100,
+            aoa_elevation: local.elevation as u16,
+            aoa_elevation_fom: 100,
+            aoa_destination_azimuth: remote.azimuth as u16,
+            aoa_destination_azimuth_fom: 100,
+            aoa_destination_elevation: remote.elevation as u16,
+            aoa_destination_elevation_fom: 100,
+            slot_index: 0,
+            rssi: u8::MAX,
+        }
     }
 }
 
@@ -440,7 +462,11 @@ impl Pica {
                 else {
                     continue;
                 };
-                measurements.push(make_measurement(mac_address, local, remote));
+                measurements.push(PeerMeasurement {
+                    mac_address: *mac_address,
+                    local,
+                    remote,
+                });
             }
         }
 
@@ -469,7 +495,11 @@ impl Pica {
                 else {
                     continue;
                 };
-                measurements.push(make_measurement(&peer_mac_address, local, remote));
+                measurements.push(PeerMeasurement {
+                    mac_address: peer_mac_address,
+                    local,
+                    remote,
+                });
             }
 
             if device.can_start_data_transfer(session_id)
@@ -499,22 +529,37 @@ impl Pica {
                 .unwrap();
         }
         if session.is_session_info_ntf_enabled() {
-            device
-                .tx
-                .send(
-                    // TODO: support extended address
-                    ShortMacTwoWaySessionInfoNtf {
-                        sequence_number: session.sequence_number,
-                        session_token: session_id,
-                        rcr_indicator: 0,            //TODO
-                        current_ranging_interval: 0, //TODO
-                        two_way_ranging_measurements: measurements,
-                        vendor_data: vec![],
-                    }
-                    .encode_to_vec()
-                    .unwrap(),
-                )
-                .unwrap();
+            let has_extended_address = measurements
+                .iter()
+                .any(|m| matches!(m.mac_address, MacAddress::Extended(_)));
+            let ntf = if has_extended_address {
+                ExtendedMacTwoWaySessionInfoNtf {
+                    sequence_number: session.sequence_number,
+                    session_token: session_id,
+                    rcr_indicator: 0,            //TODO
+                    current_ranging_interval: 0, //TODO
+                    two_way_ranging_measurements: measurements
+                        .iter()
+                        .map(PeerMeasurement::to_extended)
+                        .collect(),
+                    vendor_data: vec![],
+                }
+                .encode_to_vec()
+            } else {
+                ShortMacTwoWaySessionInfoNtf {
+                    sequence_number: session.sequence_number,
+                    session_token: session_id,
+                    rcr_indicator: 0,            //TODO
+                    current_ranging_interval: 0, //TODO
+                    two_way_ranging_measurements: measurements
+                        .iter()
+                        .map(PeerMeasurement::to_short)
+                        .collect(),
+                    vendor_data: vec![],
+                }
+                .encode_to_vec()
+            };
+            device.tx.send(ntf.unwrap()).unwrap();
 
             let device = self.get_device_mut(device_handle).unwrap();
             let session = device.session_mut(session_id).unwrap();
-- 
2.43.0


From c777f38a0b82a65e35084df006d33057a3671d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:41 +0000
Subject: [PATCH 14/36] fix: do not panic in a ranging round when a host has
 just disconnected

The connection task drops the receive side of the channel before the
disconnection is handled.
---
 src/lib.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 49d2a47..45adb7b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -512,21 +512,18 @@ impl Pica {
         // TODO: Data transfer should be limited in size for
         // each round of ranging
         for peer_device in data_transfer.iter() {
-            peer_device
-                .tx
-                .send(
-                    DataMessageRcv {
-                        application_data: session.data().clone().into(),
-                        data_sequence_number: 0x01,
-                        pbf: PacketBoundaryFlag::Complete,
-                        session_handle: session_id,
-                        source_address: session.app_config.device_mac_address.unwrap().into(),
-                        status: uci::Status::Ok,
-                    }
-                    .encode_to_vec()
-                    .unwrap(),
-                )
-                .unwrap();
+            let _ = peer_device.tx.send(
+                DataMessageRcv {
+                    application_data: session.data().clone().into(),
+                    data_sequence_number: 0x01,
+                    pbf: PacketBoundaryFlag::Complete,
+                    session_handle: session_id,
+                    source_address: session.app_config.device_mac_address.unwrap().into(),
+                    status: uci::Status::Ok,
+                }
+                .encode_to_vec()
+                .unwrap(),
+            );
         }
         if session.is_session_info_ntf_enabled() {
             let has_extended_address = measurements
@@ -559,7 +556,7 @@ impl Pica {
                 }
                 .encode_to_vec()
             };
-            device.tx.send(ntf.unwrap()).unwrap();
+            let _ = device.tx.send(ntf.unwrap());
 
             let device = self.get_device_mut(device_handle).unwrap();
             let session = device.session_mut(session_id).unwrap();
-- 
2.43.0


From ebac4270dc2ba904f5fd7a8a2ed91d62aa846120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:44 +0000
Subject: [PATCH 15/36] fix: split queued application data over 64KB into
 several messages

The size did not fit the message format: encoding failed, and the panic took
down the whole controller.
---
 src/lib.rs     | 26 ++++++++++++++------------
 src/packets.rs |  3 +++
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 45adb7b..895487a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -512,18 +512,20 @@ impl Pica {
         // TODO: Data transfer should be limited in size for
         // each round of ranging
         for peer_device in data_transfer.iter() {
-            let _ = peer_device.tx.send(
-                DataMessageRcv {
-                    application_data: session.data().clone().into(),
-                    data_sequence_number: 0x01,
-                    pbf: PacketBoundaryFlag::Complete,
-                    session_handle: session_id,
-                    source_address: session.app_config.device_mac_address.unwrap().into(),
-                    status: uci::Status::Ok,
-                }
-                .encode_to_vec()
-                .unwrap(),
-            );
+            for application_data in session.data().chunks(MAX_APPLICATION_DATA_SIZE) {
+                let _ = peer_device.tx.send(
+                    DataMessageRcv {
+                        application_data: application_data.into(),
+                        data_sequence_number: 0x01,
+                        pbf: PacketBoundaryFlag::Complete,
+                        session_handle: session_id,
+                        source_address: session.app_config.device_mac_address.unwrap().into(),
+                        status: uci::Status::Ok,
+                    }
+                    .encode_to_vec()
+                    .unwrap(),
+                );
+            }
         }
         if session.is_session_info_ntf_enabled() {
             let has_extended_address = measurements
diff --git a/src/packets.rs b/src/packets.rs
index 50c4ff6..ca67e38 100644
--- a/src/packets.rs
+++ b/src/packets.rs
@@ -43,6 +43,9 @@ pub mod uci {
     /// Maximum size of an UCI data packet payload.
     pub const MAX_DATA_PACKET_PAYLOAD_SIZE: usize = 1024;
 
+    /// Maximum size of the application data of an UCI data message.
+    pub const MAX_APPLICATION_DATA_SIZE: usize = u16::MAX as usize;
+
     // Extract the message type from the first 3 bits of the passed (header) byte
     pub fn parse_message_type(byte: u8) -> MessageType {
         MessageType::try_from((byte >> 5) & 0x7).unwrap_or(MessageType::Command)
-- 
2.43.0


From 9c446d9cfe8c9f3933042ec83ccc62d69e93dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:07 +0000
Subject: [PATCH 16/36] fix: do not give a connecting device the address of an
 anchor

The address derived from the handle could be in use by an anchor.
---
 src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 895487a..a1f28fb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -371,12 +371,16 @@ impl Pica {
         let disconnect_tx = self.command_tx.clone();
         let pcapng_dir = self.pcapng_dir.clone();
 
-        let handle = self.counter;
-        self.counter += 1;
+        // The default address is derived from the handle: skip the handles
+        // for which the address is in use by another device or anchor.
+        let (handle, mac_address) = (self.counter..=self.counter + u16::MAX as usize)
+            .map(|handle| (handle, MacAddress::Short((handle as u16).to_be_bytes())))
+            .find(|(_, mac_address)| self.get_category(mac_address).is_none())
+            .ok_or(anyhow::anyhow!("no mac address available"))?;
+        self.counter = handle + 1;
 
         log::debug!("[{}] Connecting device", handle);
 
-        let mac_address = MacAddress::Short((handle as u16).to_be_bytes());
         let mut device = Device::new(handle, mac_address, packet_tx, self.command_tx.clone());
         device.init();
         device.send_notifications();
-- 
2.43.0


From df6fe2d8f16202f09b779c92f4df2e87c4a0eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:09 +0000
Subject: [PATCH 17/36] fix: serve the host when its pcapng trace cannot be
 created

The connection task panicked, and the device was never disconnected.
---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a1f28fb..279033c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -399,7 +399,9 @@ impl Pica {
             let pcapng_file = if let Some(dir) = pcapng_dir {
                 let full_path = dir.join(format!("device-{}.pcapng", handle));
                 log::debug!("Recording pcapng to file {}", full_path.as_path().display());
-                Some(pcapng::File::create(full_path).unwrap())
+                pcapng::File::create(full_path)
+                    .map_err(|err| log::error!("Failed to create pcapng file: {}", err))
+                    .ok()
             } else {
                 None
             };
-- 
2.43.0


From 3200ce1e964a9659baf36535e33fe677db87f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:12 +0000
Subject: [PATCH 18/36] fix: survive bursts of connections in the HTTP server

More than 16 connection events at a time overflowed the event channel, which
terminated the server.
---
 src/bin/http-server/main.rs | 3 +++
 src/lib.rs                  | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index e248040..2d40746 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -163,6 +163,9 @@ impl Context {
                         })
                         .unwrap();
                 }
+                Err(err @ broadcast::error::RecvError::Lagged(_)) => {
+                    log::error!("connection events lost: {}", err)
+                }
                 Err(err) => anyhow::bail!(err),
             }
         }
diff --git a/src/lib.rs b/src/lib.rs
index 279033c..188ea7f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -208,7 +208,8 @@ impl PeerMeasurement {
 impl Pica {
     pub fn new(ranging_estimator: Box<dyn RangingEstimator>, pcapng_dir: Option<PathBuf>) -> Self {
         let (command_tx, command_rx) = mpsc::channel(MAX_SESSION * MAX_DEVICE);
-        let (event_tx, _) = broadcast::channel(16);
+        // A burst of queued commands may generate as many events.
+        let (event_tx, _) = broadcast::channel(MAX_SESSION * MAX_DEVICE);
         Pica {
             devices: HashMap::new(),
             anchors: HashMap::new(),
-- 
2.43.0


From 2ce2db5763290031c79bdede26f2e00ae074b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:36 +0000
Subject: [PATCH 19/36] fix: do not panic on scene events when there are no
 event listeners

Without a listener on /events, the first connection of a device terminated
the server, and anchor and position requests failed with the scene lock
poisoned.
---
 src/bin/http-server/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index 2d40746..fc366ea 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -112,14 +112,17 @@ pub enum Event {
 struct Context {
     devices: Arc<Mutex<HashMap<pica::Handle, DeviceInformation>>>,
     events: broadcast::Sender<Event>,
+    /// Keeps the event channel open while there are no listeners.
+    _events_rx: Arc<broadcast::Receiver<Event>>,
 }
 
 impl Context {
     fn new() -> Self {
-        let (events, _) = broadcast::channel(1024);
+        let (events, events_rx) = broadcast::channel(1024);
         Context {
             devices: Arc::new(Mutex::new(HashMap::new())),
             events,
+            _events_rx: Arc::new(events_rx),
         }
     }
 
-- 
2.43.0


From 2ac5d7377c4c7ddd445f44a17e1bf5cc9d7b43cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:38 +0000
Subject: [PATCH 20/36] fix: keep the scene consistent when anchors are created
 and destroyed concurrently

The scene is updated after the response of the pica context: a destroy request
could complete before the creation was recorded, leaving a ghost anchor.
---
 src/bin/http-server/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index fc366ea..16987c6 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -112,6 +112,9 @@ pub enum Event {
 struct Context {
     devices: Arc<Mutex<HashMap<pica::Handle, DeviceInformation>>>,
     events: broadcast::Sender<Event>,
+    /// Serializes the creation and destruction of anchors, so that the
+    /// scene is updated in the same order as the pica context.
+    anchor_lock: Arc<tokio::sync::Mutex<()>>,
     /// Keeps the event channel open while there are no listeners.
     _events_rx: Arc<broadcast::Receiver<Event>>,
 }
@@ -122,6 +125,7 @@ impl Context {
         Context {
             devices: Arc::new(Mutex::new(HashMap::new())),
             events,
+            anchor_lock: Default::default(),
             _events_rx: Arc::new(events_rx),
         }
     }
@@ -270,6 +274,7 @@ impl Context {
     ) -> Response<Body> {
         log::info!("create-anchor({}, {})", mac_address, position);
 
+        let _guard = self.anchor_lock.lock().await;
         let (rsp_tx, rsp_rx) = oneshot::channel::<Result<pica::Handle, PicaCommandError>>();
         cmd_tx
             .send(PicaCommand::CreateAnchor(mac_address, rsp_tx))
@@ -311,6 +316,7 @@ impl Context {
     ) -> Response<Body> {
         log::info!("destroy-anchor({})", mac_address);
 
+        let _guard = self.anchor_lock.lock().await;
         let (rsp_tx, rsp_rx) = oneshot::channel::<Result<pica::Handle, PicaCommandError>>();
         cmd_tx
             .send(PicaCommand::DestroyAnchor(mac_address, rsp_tx))
-- 
2.43.0


From fcda2dd8f402b7d4f693f029f1edaee8077f740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:55 +0000
Subject: [PATCH 21/36] fix: refuse missing and truncated positions with 406

A set-position request without a body, or any position body cut short, was
accepted as the default position; the API documents the body of set-position
as required.
---
 src/bin/http-server/main.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index 16987c6..4481d9f 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -17,7 +17,6 @@ use clap::Parser;
 use hyper::service::{make_service_fn, service_fn};
 use hyper::{body, Body, Request, Response, Server, StatusCode as HttpStatusCode};
 use serde::{Deserialize, Serialize};
-use serde_json::error::Category as SerdeErrorCategory;
 use std::collections::HashMap;
 use std::convert::Infallible;
 use std::net::{Ipv4Addr, SocketAddrV4};
@@ -399,7 +398,7 @@ macro_rules! position {
         match serde_json::from_slice::<PositionBody>(&$body) {
             Ok(body) => Position::new(body.x, body.y, body.z, body.yaw, body.pitch, body.roll),
             Err(err) => {
-                if !$mandatory && err.classify() == SerdeErrorCategory::Eof {
+                if !$mandatory && $body.is_empty() {
                     Position::default()
                 } else {
                     let reason = format!("Error while deserializing position: {}", err);
@@ -464,7 +463,7 @@ async fn http_request(
             context.http_set_position(mac_address!(mac_address), position!(body))
         }
         ["set-position", mac_address] => {
-            context.http_set_position(mac_address!(mac_address), position!(body))
+            context.http_set_position(mac_address!(mac_address), position!(body, true))
         }
         ["create-anchor", mac_address] => {
             context
-- 
2.43.0


From 3ac2243c211728949147b347e0674dcbe7f6483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:14 +0000
Subject: [PATCH 22/36] fix: complete anchor requests when the HTTP client
 disconnects

The future of the request is dropped with the connection: the anchor could be
created or destroyed without the scene being updated.
---
 src/bin/http-server/main.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index 4481d9f..97245a0 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -434,6 +434,15 @@ impl Event {
     }
 }
 
+/// Run a request that must not stop half way when the client disconnects,
+/// in which case the future handling the request is dropped.
+async fn run_to_completion<F>(request: F) -> Response<Body>
+where
+    F: std::future::Future<Output = Response<Body>> + Send + 'static,
+{
+    tokio::spawn(request).await.unwrap()
+}
+
 async fn http_request(
     mut req: Request<Body>,
     cmd_tx: mpsc::Sender<PicaCommand>,
@@ -466,13 +475,17 @@ async fn http_request(
             context.http_set_position(mac_address!(mac_address), position!(body, true))
         }
         ["create-anchor", mac_address] => {
-            context
-                .http_create_anchor(mac_address!(mac_address), position!(body), cmd_tx)
-                .await
+            let (mac_address, position) = (mac_address!(mac_address), position!(body));
+            run_to_completion(async move {
+                context
+                    .http_create_anchor(mac_address, position, cmd_tx)
+                    .await
+            })
+            .await
         }
         ["destroy-anchor", mac_address] => {
-            context
-                .http_destroy_anchor(mac_address!(mac_address), cmd_tx)
+            let mac_address = mac_address!(mac_address);
+            run_to_completion(async move { context.http_destroy_anchor(mac_address, cmd_tx).await })
                 .await
         }
         ["get-state"] => context.http_get_state(),
-- 
2.43.0


From c4ed9c611062a9921d0bd8ea9228dd6f4911d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:17 +0000
Subject: [PATCH 23/36] fix: do not merge data packets into the control packet
 being reassembled

---
 src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 188ea7f..ef03c9e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -282,6 +282,16 @@ impl Pica {
                     file.write(&packet, pcapng::Direction::Tx)?;
                 }
 
+                // Data packets can be interleaved with the segments of
+                // a control packet.
+                if header.mt == packets::uci::MessageType::Data {
+                    cmd_tx
+                        .send(PicaCommand::UciPacket(handle, packet))
+                        .await
+                        .unwrap();
+                    continue;
+                }
+
                 match &mut complete_packet {
                     Some(complete_packet) => {
                         complete_packet.extend_from_slice(&packet[HEADER_SIZE..])
@@ -289,9 +299,7 @@ impl Pica {
                     None => complete_packet = Some(packet),
                 }
 
-                if header.pbf == packets::uci::PacketBoundaryFlag::Complete
-                    || header.mt == packets::uci::MessageType::Data
-                {
+                if header.pbf == packets::uci::PacketBoundaryFlag::Complete {
                     break;
                 }
             }
-- 
2.43.0


From b6d72ea133c91067f8d9d84c008b78ea3de9c89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:17 +0000
Subject: [PATCH 24/36] fix: stop the reader of the Python host when the server
 disconnects

_read_exact looped forever on an empty read, blocking the event loop.
---
 py/pica/pica/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/pica/pica/__init__.py b/py/pica/pica/__init__.py
index 423824f..a408048 100644
--- a/py/pica/pica/__init__.py
+++ b/py/pica/pica/__init__.py
@@ -34,6 +34,8 @@ class Host:
         received = bytes()
         while len(received) < expected_len:
             chunk = await self.reader.read(expected_len - len(received))
+            if not chunk:
+                raise ConnectionError("socket disconnected")
             received += chunk
         return received
 
-- 
2.43.0


From 2c4dfd7e9b62df67ac61f39877f4b79cbdac5412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:01 +0000
Subject: [PATCH 25/36] fix: answer requests with an unreadable body with 400
 instead of panicking

---
 src/bin/http-server/main.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index 97245a0..5dfb85a 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -459,7 +459,17 @@ async fn http_request(
             .unwrap());
     }
 
-    let body = body::to_bytes(req.body_mut()).await.unwrap();
+    let body = match body::to_bytes(req.body_mut()).await {
+        Ok(body) => body,
+        Err(err) => {
+            let reason = format!("Error while reading the request: {}", err);
+            log::error!("{}", reason);
+            return Ok(Response::builder()
+                .status(HttpStatusCode::BAD_REQUEST)
+                .body(reason.into())
+                .unwrap());
+        }
+    };
     let response = match req
         .uri_mut()
         .path()
-- 
2.43.0


From 48519e65ab20aec7aa7e317f798815fa2cea385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:56 +0000
Subject: [PATCH 26/36] fix: write pcapng blocks completely when a write to the
 trace is short

---
 src/pcapng.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pcapng.rs b/src/pcapng.rs
index 9c1da7e..33979bd 100644
--- a/src/pcapng.rs
+++ b/src/pcapng.rs
@@ -30,7 +30,9 @@ pub enum Direction {
 
 impl File {
     pub fn create<P: AsRef<Path>>(path: P) -> std::io::Result<File> {
-        let mut file = std::fs::File::create(path)?;
+        let mut output = std::fs::File::create(path)?;
+        // A write to the output may be short: collect the blocks in memory.
+        let mut file = Vec::new();
 
         // PCAPng files must start with a Section Header Block.
         file.write(&u32::to_le_bytes(0x0A0D0D0A))?; // Block Type
@@ -50,8 +52,10 @@ impl File {
         file.write(&u32::to_le_bytes(0))?; // SnapLen (no limit)
         file.write(&u32::to_le_bytes(20))?; // Block Total Length
 
+        output.write_all(&file)?;
+
         Ok(File {
-            file: std::sync::Mutex::new(file),
+            file: std::sync::Mutex::new(output),
             start_time: Instant::now(),
         })
     }
@@ -60,7 +64,9 @@ impl File {
         let packet_data_padding: usize = 4 - packet.len() % 4;
         let block_total_length: u32 = packet.len() as u32 + packet_data_padding as u32 + 32;
         let timestamp = self.start_time.elapsed().as_micros();
-        let mut file = self.file.lock().unwrap();
+        let mut output = self.file.lock().unwrap();
+        // A write to the output may be short: collect the block in memory.
+        let mut file = Vec::new();
 
         // Wrap the packet inside an Enhanced Packet Block.
         file.write(&u32::to_le_bytes(0x00000006))?; // Block Type
@@ -73,6 +79,6 @@ impl File {
         file.write(packet)?;
         file.write(&vec![0; packet_data_padding])?;
         file.write(&u32::to_le_bytes(block_total_length))?; // Block Total Length
-        Ok(())
+        output.write_all(&file)
     }
 }
-- 
2.43.0


From 7ee0c70edd7ff46fc71d90710de55196a0f866aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:58 +0000
Subject: [PATCH 27/36] fix: keep data packets apart from the segments of a
 control packet in the Python host

Data packets can be interleaved with the segments of a control packet;
their payload was merged into the control packet.
---
 py/pica/pica/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/py/pica/pica/__init__.py b/py/pica/pica/__init__.py
index a408048..3a4d6ff 100644
--- a/py/pica/pica/__init__.py
+++ b/py/pica/pica/__init__.py
@@ -13,6 +13,8 @@ class Host:
         self.writer = writer
         self.control_queue = asyncio.Queue()
         self.data_queue = asyncio.Queue()
+        # Payload of the incomplete control packet and data packet.
+        self.incomplete = {"control": bytes(), "data": bytes()}
         self.mac_address = mac_address
 
         loop = asyncio.get_event_loop()
@@ -45,13 +47,12 @@ class Host:
         The packet is automatically re-assembled if segmented on
         the UCI transport."""
 
-        complete_packet_bytes = bytes()
-
         # Note on reassembly:
         # For each segment of a Control Message, the
         # header of the Control Packet SHALL contain the same MT, GID and OID
         # values. It is correct to keep only the last header of the
-        # segmented packet.
+        # segmented packet. Data packets can be interleaved with the
+        # segments of a control packet.
         while True:
             # Read the common packet header.
             header_bytes = await self._read_exact(4)
@@ -69,11 +70,14 @@ class Host:
                 control_header: ControlPacketHeader = uci.ControlPacketHeader.parse_all(header_bytes)  # type: ignore
                 payload_bytes = await self._read_exact(control_header.payload_length)
 
-            complete_packet_bytes += payload_bytes
+            kind = "data" if common_header.mt == uci.MessageType.DATA else "control"
+            self.incomplete[kind] += payload_bytes
 
             # Check the Packet Boundary Flag.
             match common_header.pbf:
                 case uci.PacketBoundaryFlag.COMPLETE:
+                    complete_packet_bytes = self.incomplete[kind]
+                    self.incomplete[kind] = bytes()
                     return header_bytes + complete_packet_bytes
                 case uci.PacketBoundaryFlag.NOT_COMPLETE:
                     pass
-- 
2.43.0


From c95abe0b771475a37bf92146deb55260fa07042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:47 +0000
Subject: [PATCH 28/36] fix: split the measurements of a round over several
 notifications

The count field of the session info notification is 8 bits, with more
than 255 measured peers it wrapped around.
---
 src/lib.rs | 63 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ef03c9e..a857d8b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -546,34 +546,41 @@ impl Pica {
             let has_extended_address = measurements
                 .iter()
                 .any(|m| matches!(m.mac_address, MacAddress::Extended(_)));
-            let ntf = if has_extended_address {
-                ExtendedMacTwoWaySessionInfoNtf {
-                    sequence_number: session.sequence_number,
-                    session_token: session_id,
-                    rcr_indicator: 0,            //TODO
-                    current_ranging_interval: 0, //TODO
-                    two_way_ranging_measurements: measurements
-                        .iter()
-                        .map(PeerMeasurement::to_extended)
-                        .collect(),
-                    vendor_data: vec![],
-                }
-                .encode_to_vec()
-            } else {
-                ShortMacTwoWaySessionInfoNtf {
-                    sequence_number: session.sequence_number,
-                    session_token: session_id,
-                    rcr_indicator: 0,            //TODO
-                    current_ranging_interval: 0, //TODO
-                    two_way_ranging_measurements: measurements
-                        .iter()
-                        .map(PeerMeasurement::to_short)
-                        .collect(),
-                    vendor_data: vec![],
-                }
-                .encode_to_vec()
-            };
-            let _ = device.tx.send(ntf.unwrap());
+            // The measurements are counted in one byte of the notification.
+            let mut chunks: Vec<_> = measurements.chunks(u8::MAX as usize).collect();
+            if chunks.is_empty() {
+                chunks.push(&[]);
+            }
+            for measurements in chunks {
+                let ntf = if has_extended_address {
+                    ExtendedMacTwoWaySessionInfoNtf {
+                        sequence_number: session.sequence_number,
+                        session_token: session_id,
+                        rcr_indicator: 0,            //TODO
+                        current_ranging_interval: 0, //TODO
+                        two_way_ranging_measurements: measurements
+                            .iter()
+                            .map(PeerMeasurement::to_extended)
+                            .collect(),
+                        vendor_data: vec![],
+                    }
+                    .encode_to_vec()
+                } else {
+                    ShortMacTwoWaySessionInfoNtf {
+                        sequence_number: session.sequence_number,
+                        session_token: session_id,
+                        rcr_indicator: 0,            //TODO
+                        current_ranging_interval: 0, //TODO
+                        two_way_ranging_measurements: measurements
+                            .iter()
+                            .map(PeerMeasurement::to_short)
+                            .collect(),
+                        vendor_data: vec![],
+                    }
+                    .encode_to_vec()
+                };
+                let _ = device.tx.send(ntf.unwrap());
+            }
 
             let device = self.get_device_mut(device_handle).unwrap();
             let session = device.session_mut(session_id).unwrap();
-- 
2.43.0


From cbc38d614e8c45667165ce1dd193ad26a8aa6e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:53 +0000
Subject: [PATCH 29/36] fix: keep serving when a connection cannot be accepted

---
 src/bin/http-server/main.rs | 13 ++++++++++++-
 src/bin/main.rs             | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index 5dfb85a..813ac69 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -23,6 +23,7 @@ use std::net::{Ipv4Addr, SocketAddrV4};
 use std::path::PathBuf;
 use std::sync::Arc;
 use std::sync::Mutex;
+use std::time::Duration;
 use tokio::net::TcpListener;
 use tokio::sync::{broadcast, mpsc, oneshot};
 use tokio::try_join;
@@ -35,6 +36,7 @@ use position::Position;
 
 const DEFAULT_UCI_PORT: u16 = 7000;
 const DEFAULT_WEB_PORT: u16 = 3000;
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
 
 const STATIC_FILES: &[(&str, &str, &str)] = &[
     ("/", "text/html", include_str!("../../../static/index.html")),
@@ -535,7 +537,16 @@ async fn listen(tx: mpsc::Sender<PicaCommand>, uci_port: u16) -> Result<()> {
     log::info!("Pica: Listening on: {}", uci_port);
 
     loop {
-        let (socket, addr) = uci_listener.accept().await?;
+        let (socket, addr) = match uci_listener.accept().await {
+            Ok(connection) => connection,
+            Err(err) => {
+                // The connection was aborted, or there are currently too many
+                // open files: keep serving the other hosts.
+                log::error!("Failed to accept connection: {}", err);
+                tokio::time::sleep(ACCEPT_RETRY_DELAY).await;
+                continue;
+            }
+        };
         log::info!("Uwb host addr: {}", addr);
 
         let (read_half, write_half) = socket.into_split();
diff --git a/src/bin/main.rs b/src/bin/main.rs
index 96ffe6c..432921c 100644
--- a/src/bin/main.rs
+++ b/src/bin/main.rs
@@ -18,11 +18,13 @@ use env_logger::Env;
 use pica::{Pica, PicaCommand};
 use std::net::{Ipv4Addr, SocketAddrV4};
 use std::path::PathBuf;
+use std::time::Duration;
 use tokio::net::TcpListener;
 use tokio::sync::mpsc;
 use tokio::try_join;
 
 const DEFAULT_UCI_PORT: u16 = 7000;
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
 
 async fn accept_incoming(cmd_tx: mpsc::Sender<PicaCommand>, uci_port: u16) -> Result<()> {
     let uci_socket = SocketAddrV4::new(Ipv4Addr::LOCALHOST, uci_port);
@@ -30,7 +32,16 @@ async fn accept_incoming(cmd_tx: mpsc::Sender<PicaCommand>, uci_port: u16) -> Re
     log::info!("Pica: Listening on: {}", uci_port);
 
     loop {
-        let (socket, addr) = uci_listener.accept().await?;
+        let (socket, addr) = match uci_listener.accept().await {
+            Ok(connection) => connection,
+            Err(err) => {
+                // The connection was aborted, or there are currently too many
+                // open files: keep serving the other hosts.
+                log::error!("Failed to accept connection: {}", err);
+                tokio::time::sleep(ACCEPT_RETRY_DELAY).await;
+                continue;
+            }
+        };
         log::info!("Uwb host addr: {}", addr);
 
         let (read_half, write_half) = socket.into_split();
-- 
2.43.0


From c8c05c57a9b168fa26873570afaeea6c2eb65900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 30/36] fix: show the current scene on the web page, whatever
 the order of the state and the events

The state was fetched before the events were subscribed to, in any order: a
device could be shown twice, be missing, or stay at an old position, and the
page was not updated after the event stream was reconnected.
---
 static/index.html | 71 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 22 deletions(-)

diff --git a/static/index.html b/static/index.html
index 774dcae..98c0f2b 100644
--- a/static/index.html
+++ b/static/index.html
@@ -90,15 +90,34 @@ limitations under the License.
     }
   }
 
-  async function update_state() {
-    const res = await fetch('/get-state');
-    const { devices } = await res.json();
-    map.devices = devices.map(device => parse_device(device));
+  function find_device(mac_address) {
+    return map.devices.find((device) => device.mac_address === mac_address);
   }
 
-  window.addEventListener('load', async () => {
-    update_state();
-  });
+  // Events received while the state is being loaded. The state may or may
+  // not reflect them, they are handled once it is known.
+  let pending_events = null;
+
+  async function update_state() {
+    const pending = (pending_events = []);
+    try {
+      const res = await fetch('/get-state');
+      const { devices } = await res.json();
+      // The state is being loaded again.
+      if (pending !== pending_events) return;
+      map.devices = devices.map(device => parse_device(device));
+    } finally {
+      if (pending === pending_events) {
+        pending_events = null;
+        pending.forEach((handle) => handle());
+
+        // The selected device has been replaced.
+        map.selected = find_device(map.selected?.mac_address) ?? map.selected;
+        info.device = find_device(info.device?.mac_address) ?? null;
+        map.update();
+      }
+    }
+  }
 
   map.addEventListener(
     "select",
@@ -142,18 +161,30 @@ limitations under the License.
 
   const events = new EventSource("/events");
 
-  events.addEventListener("device-added", (event) => {
-    const data = JSON.parse(event.data);
+  // Events are only received from now on: load the state they apply to,
+  // also when reconnecting.
+  events.addEventListener("open", () => update_state());
+
+  function on_event(name, handle) {
+    events.addEventListener(name, (event) => {
+      const data = JSON.parse(event.data);
+      if (pending_events) pending_events.push(() => handle(data));
+      else handle(data);
+    });
+  }
+
+  on_event("device-added", (data) => {
     console.log("Device Added", data);
 
     map.devices = [
-      ...map.devices,
+      ...map.devices.filter(
+        (device) => device.mac_address !== data.mac_address
+      ),
       parse_device(data)
     ];
   });
 
-  events.addEventListener("device-removed", (event) => {
-    const data = JSON.parse(event.data);
+  on_event("device-removed", (data) => {
     console.log("Device Removed", data);
 
     const {
@@ -174,17 +205,15 @@ limitations under the License.
     });
   });
 
-  events.addEventListener("device-updated", (event) => {
-    const data = JSON.parse(event.data);
+  on_event("device-updated", (data) => {
     console.log("Position updated", data);
 
     const {
       mac_address, x, y, z, yaw, pitch, roll,
     } = data;
 
-    const device = map.devices.find(
-      (device) => device.mac_address === mac_address
-    );
+    const device = find_device(mac_address);
+    if (!device) return;
 
     device.position = { x, y, z };
     device.yaw = yaw;
@@ -195,8 +224,7 @@ limitations under the License.
     info.update();
   });
 
-  events.addEventListener("neighbor-updated", (event) => {
-    const data = JSON.parse(event.data);
+  on_event("neighbor-updated", (data) => {
     console.log("Neighbor updated", data);
 
     const {
@@ -207,9 +235,8 @@ limitations under the License.
       elevation,
     } = data;
 
-    const device = map.devices.find(
-      (device) => device.mac_address === source_mac_address
-    );
+    const device = find_device(source_mac_address);
+    if (!device) return;
 
     const neighbor = device.neighbors.find(
       (device) => device.mac_address == destination_mac_address
-- 
2.43.0


From 4ca495edc15e37febb35058bc7b8c95448b1b03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:57 +0000
Subject: [PATCH 31/36] fix: keep the devices of the state when the web page is
 told that they were added

---
 static/index.html | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/static/index.html b/static/index.html
index 98c0f2b..d6e0042 100644
--- a/static/index.html
+++ b/static/index.html
@@ -176,10 +176,11 @@ limitations under the License.
   on_event("device-added", (data) => {
     console.log("Device Added", data);
 
+    // The device was already part of the state.
+    if (find_device(data.mac_address)) return;
+
     map.devices = [
-      ...map.devices.filter(
-        (device) => device.mac_address !== data.mac_address
-      ),
+      ...map.devices,
       parse_device(data)
     ];
   });
-- 
2.43.0


From 2945ab527e9533e2e37e413fa1c891932928e201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:18 +0000
Subject: [PATCH 32/36] fix: stop showing a removed device among the neighbors
 on the web page

---
 static/index.html | 1 +
 1 file changed, 1 insertion(+)

diff --git a/static/index.html b/static/index.html
index d6e0042..143e3ad 100644
--- a/static/index.html
+++ b/static/index.html
@@ -204,6 +204,7 @@ limitations under the License.
         (neighbor) => neighbor.mac_address !== mac_address
       );
     });
+    info.update();
   });
 
   on_event("device-updated", (data) => {
-- 
2.43.0


From 95f53c805651053726489d88b3875eae5e2ecb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:01 +0000
Subject: [PATCH 33/36] fix: show the angles of the selected device on the
 sliders of the web page

---
 static/src/components/DeviceInfo.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/static/src/components/DeviceInfo.js b/static/src/components/DeviceInfo.js
index 6d86c31..a320964 100644
--- a/static/src/components/DeviceInfo.js
+++ b/static/src/components/DeviceInfo.js
@@ -151,7 +151,7 @@ export class DeviceInfo extends LitElement {
                   type="range"
                   min="-180"
                   max="180"
-                  value=${this.device.yaw}
+                  .value=${this.device.yaw}
                   @input=${this.setYaw}
                   @change=${this.notifyChange}
                 />
@@ -162,7 +162,7 @@ export class DeviceInfo extends LitElement {
                   type="range"
                   min="-90"
                   max="90"
-                  value=${this.device.pitch}
+                  .value=${this.device.pitch}
                   @input=${this.setPitch}
                   @change=${this.notifyChange}
                 />
@@ -173,7 +173,7 @@ export class DeviceInfo extends LitElement {
                   type="range"
                   min="-180"
                   max="180"
-                  value=${this.device.roll}
+                  .value=${this.device.roll}
                   @input=${this.setRoll}
                   @change=${this.notifyChange}
                 />
-- 
2.43.0


From e3761ac24134b415321d8dc4b2912ef37c5d333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:24 +0000
Subject: [PATCH 34/36] fix: let the Python library read the responses to
 multicast list updates

The checked-in classes were generated before the status of the controlees
was added to the response, hence every response sent by the controller was
left as an unparsed SessionConfigPacket. Regenerate the class; its element
has to be defined before it.
---
 py/pica/pica/packets/uci.py | 67 +++++++++++++++++++++++--------------
 src/uci_packets.pdl         | 10 +++---
 2 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/py/pica/pica/packets/uci.py b/py/pica/pica/packets/uci.py
index 99b11b1..c2cd247 100644
--- a/py/pica/pica/packets/uci.py
+++ b/py/pica/pica/packets/uci.py
@@ -3378,63 +3378,78 @@ class SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload(Packet):
         return sum([elt.size for elt in self.controlees]) + 1
 
 @dataclass
-class SessionUpdateControllerMulticastListRsp(SessionConfigPacket):
-    status: Status = field(kw_only=True, default=Status.OK)
+class ControleeStatus(Packet):
+    mac_address: bytearray = field(kw_only=True, default_factory=bytearray)
+    status: MulticastUpdateStatus = field(kw_only=True, default=MulticastUpdateStatus.OK_MULTICAST_LIST_UPDATE)
 
     def __post_init__(self):
-        self.mt = MessageType.RESPONSE
-        self.oid = SessionConfigOpcodeId.UPDATE_CONTROLLER_MULTICAST_LIST
-        self.gid = GroupId.SESSION_CONFIG
+        pass
 
     @staticmethod
-    def parse(fields: dict, span: bytes) -> Tuple['SessionUpdateControllerMulticastListRsp', bytes]:
-        if fields['mt'] != MessageType.RESPONSE or fields['oid'] != SessionConfigOpcodeId.UPDATE_CONTROLLER_MULTICAST_LIST or fields['gid'] != GroupId.SESSION_CONFIG:
-            raise Exception("Invalid constraint field values")
+    def parse(span: bytes) -> Tuple['ControleeStatus', bytes]:
+        fields = {'payload': None}
+        if len(span) < 2:
+            raise Exception('Invalid packet size')
+        fields['mac_address'] = list(span[:2])
+        span = span[2:]
         if len(span) < 1:
             raise Exception('Invalid packet size')
-        fields['status'] = Status.from_int(span[0])
+        fields['status'] = MulticastUpdateStatus.from_int(span[0])
         span = span[1:]
-        return SessionUpdateControllerMulticastListRsp(**fields), span
+        return ControleeStatus(**fields), span
 
     def serialize(self, payload: bytes = None) -> bytes:
         _span = bytearray()
+        _span.extend(self.mac_address)
         _span.append((self.status << 0))
-        return SessionConfigPacket.serialize(self, payload = bytes(_span))
+        return bytes(_span)
 
     @property
     def size(self) -> int:
-        return 1
+        return 3
 
 @dataclass
-class ControleeStatus(Packet):
-    mac_address: bytearray = field(kw_only=True, default_factory=bytearray)
-    status: MulticastUpdateStatus = field(kw_only=True, default=MulticastUpdateStatus.OK_MULTICAST_LIST_UPDATE)
+class SessionUpdateControllerMulticastListRsp(SessionConfigPacket):
+    status: Status = field(kw_only=True, default=Status.OK)
+    controlee_status: List[ControleeStatus] = field(kw_only=True, default_factory=list)
 
     def __post_init__(self):
-        pass
+        self.mt = MessageType.RESPONSE
+        self.oid = SessionConfigOpcodeId.UPDATE_CONTROLLER_MULTICAST_LIST
+        self.gid = GroupId.SESSION_CONFIG
 
     @staticmethod
-    def parse(span: bytes) -> Tuple['ControleeStatus', bytes]:
-        fields = {'payload': None}
+    def parse(fields: dict, span: bytes) -> Tuple['SessionUpdateControllerMulticastListRsp', bytes]:
+        if fields['mt'] != MessageType.RESPONSE or fields['oid'] != SessionConfigOpcodeId.UPDATE_CONTROLLER_MULTICAST_LIST or fields['gid'] != GroupId.SESSION_CONFIG:
+            raise Exception("Invalid constraint field values")
         if len(span) < 2:
             raise Exception('Invalid packet size')
-        fields['mac_address'] = list(span[:2])
+        fields['status'] = Status.from_int(span[0])
+        controlee_status_count = span[1]
         span = span[2:]
-        if len(span) < 1:
+        if len(span) < controlee_status_count * 3:
             raise Exception('Invalid packet size')
-        fields['status'] = MulticastUpdateStatus.from_int(span[0])
-        span = span[1:]
-        return ControleeStatus(**fields), span
+        controlee_status = []
+        for n in range(controlee_status_count):
+            controlee_status.append(ControleeStatus.parse_all(span[n * 3:(n + 1) * 3]))
+        fields['controlee_status'] = controlee_status
+        span = span[controlee_status_count * 3:]
+        return SessionUpdateControllerMulticastListRsp(**fields), span
 
     def serialize(self, payload: bytes = None) -> bytes:
         _span = bytearray()
-        _span.extend(self.mac_address)
         _span.append((self.status << 0))
-        return bytes(_span)
+        if len(self.controlee_status) > 255:
+            print(f"Invalid length for field SessionUpdateControllerMulticastListRsp::controlee_status:  {len(self.controlee_status)} > 255; the array will be truncated")
+            del self.controlee_status[255:]
+        _span.append((len(self.controlee_status) << 0))
+        for _elt in self.controlee_status:
+            _span.extend(_elt.serialize())
+        return SessionConfigPacket.serialize(self, payload = bytes(_span))
 
     @property
     def size(self) -> int:
-        return 3
+        return sum([elt.size for elt in self.controlee_status]) + 2
 
 @dataclass
 class SessionUpdateControllerMulticastListNtf(SessionConfigPacket):
diff --git a/src/uci_packets.pdl b/src/uci_packets.pdl
index 9bca3fc..fb784ab 100644
--- a/src/uci_packets.pdl
+++ b/src/uci_packets.pdl
@@ -1068,6 +1068,11 @@ struct SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload {
     controlees: Controlee_V2_0_32_Byte_Version[],
 }
 
+struct ControleeStatus {
+    mac_address: 8[2],
+    status: MulticastUpdateStatus,
+}
+
 packet SessionUpdateControllerMulticastListRsp : SessionConfigPacket (mt = RESPONSE, oid = UPDATE_CONTROLLER_MULTICAST_LIST) {
     status: Status,
     _count_(controlee_status): 8,
@@ -1078,11 +1083,6 @@ test SessionUpdateControllerMulticastListRsp {
     "\x41\x07\x00\x01\x00\x00\x00\x00",
 }
 
-struct ControleeStatus {
-    mac_address: 8[2],
-    status: MulticastUpdateStatus,
-}
-
 packet SessionUpdateControllerMulticastListNtf : SessionConfigPacket (mt = NOTIFICATION, oid = UPDATE_CONTROLLER_MULTICAST_LIST) {
     session_token: 32, // Session ID or Session Handle (based on UWBS version)
     _count_(controlee_status): 8,
-- 
2.43.0


From 3f6a4d65e1146f54d5badb0894b1fdbe98ee27a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:44 +0000
Subject: [PATCH 35/36] fix: console commands use the names of the packet
 library

Six commands raised AttributeError: the classes and enumerators they used were renamed.
---
 py/pica/console.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/py/pica/console.py b/py/pica/console.py
index 425db53..ad1ec4b 100755
--- a/py/pica/console.py
+++ b/py/pica/console.py
@@ -146,25 +146,25 @@ class Device:
     def device_reset(self, **kargs):
         """Reset the UWBS."""
         self.host.send_control(
-            uci.DeviceResetCmd(reset_config=uci.ResetConfig.UWBS_RESET)
+            uci.CoreDeviceResetCmd(reset_config=uci.ResetConfig.UWBS_RESET)
         )
 
     def get_device_info(self, **kargs):
         """Retrieve the device information like (UCI version and other vendor specific info)."""
-        self.host.send_control(uci.GetDeviceInfoCmd())
+        self.host.send_control(uci.CoreGetDeviceInfoCmd())
 
     def get_caps_info(self, **kargs):
         """Get the capability of the UWBS."""
-        self.host.send_control(uci.GetCapsInfoCmd())
+        self.host.send_control(uci.CoreGetCapsInfoCmd())
 
     def set_config(self, low_power_mode: str = "0", **kargs):
         """Set the configuration parameters on the UWBS."""
         self.host.send_control(
-            uci.SetConfigCmd(
-                tlvs=[
-                    uci.DeviceConfigTlv(
-                        cfg_id=uci.DeviceConfigId.LOW_POWER_MODE,
-                        v=bytes([int(low_power_mode)]),
+            uci.CoreSetConfigCmd(
+                parameters=[
+                    uci.ConfigParameter(
+                        id=uci.ConfigParameterId.LOW_POWER_MODE,
+                        value=bytes([int(low_power_mode)]),
                     ),
                 ]
             )
@@ -173,10 +173,10 @@ class Device:
     def get_config(self, **kargs):
         """Retrieve the current configuration parameter(s) of the UWBS."""
         self.host.send_control(
-            uci.GetConfigCmd(
-                cfg_id=[
-                    uci.DeviceConfigId.LOW_POWER_MODE,
-                    uci.DeviceConfigId.DEVICE_STATE,
+            uci.CoreGetConfigCmd(
+                parameter_ids=[
+                    uci.ConfigParameterId.LOW_POWER_MODE,
+                    uci.ConfigParameterId.DEVICE_STATE,
                 ]
             )
         )
@@ -230,7 +230,7 @@ class Device:
                         v=int(ranging_interval).to_bytes(4, byteorder="little"),
                     ),
                     uci.AppConfigTlv(
-                        cfg_id=uci.AppConfigTlvType.NO_OF_CONTROLEE,
+                        cfg_id=uci.AppConfigTlvType.NUMBER_OF_CONTROLEES,
                         v=bytes([len(dst_mac_addresses)]),
                     ),
                     uci.AppConfigTlv(
-- 
2.43.0


From 66e1679f3da5173a17b60171d8114bf642c21859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:44 +0000
Subject: [PATCH 36/36] fix: a command that fails does not end the console

Any argument that could not be used, and any failing request, ended it.
---
 py/pica/console.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py/pica/console.py b/py/pica/console.py
index ad1ec4b..37f7254 100755
--- a/py/pica/console.py
+++ b/py/pica/console.py
@@ -477,7 +477,7 @@ async def command_line(device: Device):
             if len(param) == 0:
                 continue
             elif "=" in param:
-                [key, value] = param.split("=")
+                [key, value] = param.split("=", 1)
                 kargs[key] = value
             else:
                 args.append(param)
@@ -488,7 +488,10 @@ async def command_line(device: Device):
             print(f"Undefined command {cmd}")
             usage()
             continue
-        commands[cmd](*args, **kargs)
+        try:
+            commands[cmd](*args, **kargs)
+        except Exception as exn:
+            print(f"Failed to run {cmd}: {exn}")
 
 
 async def run(address: str, uci_port: int, http_port: int):
-- 
2.43.0

