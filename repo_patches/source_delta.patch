From 133fafd1fc4b27c04c3a5d7b6ea219f08d6d19a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:11 +0000
Subject: [PATCH 1/3] fix: refuse to complete a handshake while another channel
 is open

Two handshakes can be pending at once (create_channel is allowed while none
has completed). Completing the second one replaced the recorded account and
channel although the first channel stayed open on the chain. ibc-go's
controller refuses this in OnChanOpenAck as well.
---
 src/ibc/handshake.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ibc/handshake.rs b/src/ibc/handshake.rs
index 8d731a3..1b8f7f5 100644
--- a/src/ibc/handshake.rs
+++ b/src/ibc/handshake.rs
@@ -46,6 +46,7 @@ pub fn ibc_channel_open(
 /// - The host port is invalid.
 /// - The version metadata is invalid.
 /// - The ICA address is empty.
+/// - Another channel is already open.
 #[entry_point]
 #[allow(clippy::needless_pass_by_value)] // entry point needs this signature
 pub fn ibc_channel_connect(
@@ -170,6 +171,14 @@ mod ibc_channel_open {
             return Err(ContractError::InvalidIcaAddress);
         }
 
+        // Another handshake may have completed since this one was initiated.
+        // This contract can only have one active channel.
+        if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
+            if channel_state.is_open() {
+                return Err(ContractError::ActiveChannelAlreadySet);
+            }
+        }
+
         // update state with the ica info
         state.set_ica_info(
             &metadata.address,
-- 
2.43.0


From 3421e7b75de49e7834e1d5e0f6a3fab04da6af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:45 +0000
Subject: [PATCH 2/3] fix: report a query result for a failed packet only if it
 contained queries

An error acknowledgement always carried query_result, although the callback
documents it as present only if the packet contained queries, and the pending
queries of the failed packet were never removed.
---
 src/ibc/relay.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index c22860f..1b54fa2 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -141,13 +141,18 @@ mod ibc_packet_ack {
     ) -> Result<IbcBasicResponse, ContractError> {
         let state = state::STATE.load(deps.storage)?;
         let error_event = events::packet_ack::error(&packet, &err);
+        let query_result = state::PENDING_QUERIES
+            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
+            .map(|_| query_msg::IcaQueryResult::Error(err.clone()));
+
+        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
 
         if let Some(contract_addr) = state.callback_address {
             let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
-                ica_acknowledgement: AcknowledgementData::Error(err.clone()),
+                ica_acknowledgement: AcknowledgementData::Error(err),
                 original_packet: packet,
                 relayer,
-                query_result: Some(query_msg::IcaQueryResult::Error(err)),
+                query_result,
             }
             .into_cosmos_msg(contract_addr)?;
 
-- 
2.43.0


From ddc8f336c112fdc7c65ae3285a13eb82217c7c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:07 +0000
Subject: [PATCH 3/3] fix: do not close the current channel when a packet of a
 previous channel times out

Packets that were in flight when an ordered channel was closed can be timed
out later. The timeout marked whatever channel was current as closed although
it stayed open on the chain, so it could neither be closed nor reopened.
---
 src/ibc/relay.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index 1b54fa2..319037c 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -54,9 +54,12 @@ pub fn ibc_packet_timeout(
     _env: Env,
     msg: IbcPacketTimeoutMsg,
 ) -> Result<IbcBasicResponse, ContractError> {
-    // If the channel is ordered, close it.
+    // If the packet was sent on the current channel and the channel is ordered, close it.
+    // A packet of a previous channel can still time out after that channel was closed.
     let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
-    if channel_state.is_ordered() {
+    if channel_state.channel.endpoint.channel_id == msg.packet.src.channel_id
+        && channel_state.is_ordered()
+    {
         channel_state.close();
         state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
     }
-- 
2.43.0

