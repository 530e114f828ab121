From 62321b91e697b2a4cc9a2e32c80ad09f0a8a2555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 01/54] fix: rate limiter refill interval must not exceed the
 configured rate

The refill interval was truncated, so a configuration such as 700 requests
per second refilled one token per millisecond (1000 per second). Round the
interval up instead.
---
 crates/sip-ratelimit/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/sip-ratelimit/src/lib.rs b/crates/sip-ratelimit/src/lib.rs
index 08a6bee..2987e0c 100644
--- a/crates/sip-ratelimit/src/lib.rs
+++ b/crates/sip-ratelimit/src/lib.rs
@@ -193,9 +193,9 @@ impl RateLimitConfig {
             });
         }
 
-        // Calculate refill interval: distribute tokens evenly across window
-        let interval = (window_secs * 1000) / max_requests as u64;
-        let refill_interval_ms = if interval == 0 { 1 } else { interval };
+        // Calculate refill interval: distribute tokens evenly across window.
+        // Round up so that the refill rate never exceeds max_requests per window.
+        let refill_interval_ms = (window_secs * 1000).div_ceil(max_requests as u64);
 
         Ok(Self {
             max_requests,
-- 
2.43.0


From 1e98f515534d751794c5677314c335963fc1a232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 02/54] fix: extract_tag must not panic on multi-byte text nor
 read tags from inside the name-addr

---
 crates/sip-dialog/src/lib.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 6bf4d69..4f19972 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1213,12 +1213,19 @@ fn validate_subscription_cseq(cseq: u32) -> Result<(), SubscriptionError> {
 /// Returns `None` if the header carries no tag (e.g. the To header of an
 /// out-of-dialog request). Matching is case-insensitive per RFC 3261 §7.3.1.
 pub fn extract_tag(value: &SmolStr) -> Option<SmolStr> {
-    value.split(';').find_map(|segment| {
+    // Header parameters follow the closing bracket of a name-addr; anything
+    // before it is display name or URI content.
+    let params = match value.rfind('>') {
+        Some(end) => &value[end + 1..],
+        None => value.as_str(),
+    };
+    params.split(';').find_map(|segment| {
         let trimmed = segment.trim();
-        if trimmed.len() >= 4 && trimmed[..4].eq_ignore_ascii_case("tag=") {
-            Some(SmolStr::new(&trimmed[4..]))
-        } else {
-            None
+        match trimmed.get(..4) {
+            Some(prefix) if prefix.eq_ignore_ascii_case("tag=") => {
+                Some(SmolStr::new(&trimmed[4..]))
+            }
+            _ => None,
         }
     })
 }
-- 
2.43.0


From 16cc8c20842d810be0e3ac4a46d58b1bcc8c59db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 03/54] fix: event package validation must not panic on
 multi-byte parameters

---
 crates/sip-dialog/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 4f19972..cf110ea 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1141,7 +1141,10 @@ fn validate_event_package(event: &str) -> Result<(), SubscriptionError> {
     }
     for param in parts {
         let trimmed = param.trim();
-        if trimmed.len() >= 3 && trimmed[..3].eq_ignore_ascii_case("id=") {
+        if trimmed
+            .get(..3)
+            .is_some_and(|prefix| prefix.eq_ignore_ascii_case("id="))
+        {
             let id = trimmed[3..].trim().trim_matches('"');
             if id.len() > MAX_EVENT_ID_LENGTH {
                 return Err(SubscriptionError::EventTooLong {
-- 
2.43.0


From 3524446555a32300728f889f71e95eccf33b0c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 04/54] fix: session expires validation must not truncate to 32
 bits

---
 crates/sip-dialog/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index cf110ea..1fe94b2 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1089,7 +1089,7 @@ fn validate_cseq_increment(prev: u32, new: u32) -> Result<(), DialogError> {
 
 /// Validates session expires duration is within bounds.
 fn validate_session_expires(duration: Duration) -> Result<(), DialogError> {
-    let secs = duration.as_secs() as u32;
+    let secs = u32::try_from(duration.as_secs()).unwrap_or(u32::MAX);
     if secs < MIN_SESSION_EXPIRES {
         return Err(DialogError::SessionExpiresTooSmall {
             min: MIN_SESSION_EXPIRES,
-- 
2.43.0


From a66d0954d3dfa6ef72b70339c8eaab572c983648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 05/54] fix: subscription CSeq must not wrap or panic at
 u32::MAX

---
 crates/sip-dialog/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 1fe94b2..ca3cf45 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1643,7 +1643,7 @@ impl Subscription {
 
     /// Returns the next local CSeq number and increments it.
     pub fn next_local_cseq(&mut self) -> u32 {
-        self.local_cseq += 1;
+        self.local_cseq = self.local_cseq.saturating_add(1);
         self.local_cseq
     }
 
-- 
2.43.0


From ea2ac386e72d5d28f406a6533b48020572274e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 06/54] fix: only successful or provisional responses may
 refresh dialog state

---
 crates/sip-dialog/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index ca3cf45..9c5c945 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -583,6 +583,12 @@ impl Dialog {
     /// → Future SUBSCRIBE refreshes use new remote_target
     /// ```
     pub fn update_from_response(&mut self, resp: &Response) {
+        // A redirect's or failure's Contact is not a target refresh
+        // (RFC 3261 §12.2.1.2): the dialog keeps its state.
+        if resp.code() >= 300 {
+            return;
+        }
+
         // Update remote target if Contact present
         if let Some(contact) = extract_contact_uri(resp.headers()) {
             self.remote_target = contact;
-- 
2.43.0


From f13b8816120544b4ef3f9264b457a6ba9846b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 07/54] fix: only target refresh requests may replace the
 remote target

---
 crates/sip-dialog/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 9c5c945..9bfad84 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -671,9 +671,16 @@ impl Dialog {
             self.remote_cseq = cseq;
         }
 
-        // Update remote target from Contact
-        if let Some(contact) = extract_contact_uri(req.headers()) {
-            self.remote_target = contact;
+        // Update remote target from Contact, for target refresh requests only
+        // (RFC 3261 §12.2.2, RFC 3311, RFC 6665, RFC 3515)
+        let target_refresh = matches!(
+            req.method().as_str(),
+            "INVITE" | "UPDATE" | "SUBSCRIBE" | "NOTIFY" | "REFER"
+        );
+        if target_refresh {
+            if let Some(contact) = extract_contact_uri(req.headers()) {
+                self.remote_target = contact;
+            }
         }
 
         Ok(())
-- 
2.43.0


From 5af35956702ed0b41b6f83ce6d890ce4518aa116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 08/54] fix: dialog and subscription updates must not be
 refused at capacity

---
 crates/sip-dialog/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 9bfad84..c9777f0 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -741,7 +741,7 @@ impl DialogManager {
         // MAX_EARLY_DIALOGS_PER_CALL_ID be exceeded under load).
         let _guard = self.insert_lock.lock();
 
-        if self.dialogs.len() >= MAX_CONFIRMED_DIALOGS {
+        if self.dialogs.len() >= MAX_CONFIRMED_DIALOGS && !self.dialogs.contains_key(&dialog.id) {
             return Err(DialogError::TooManyDialogs {
                 max: MAX_CONFIRMED_DIALOGS,
             });
@@ -1698,7 +1698,9 @@ impl SubscriptionManager {
         // breached by concurrent callers (previously `len()` and `insert()`
         // were separate operations).
         let _guard = self.insert_lock.lock();
-        if self.subscriptions.len() >= MAX_SUBSCRIPTIONS {
+        if self.subscriptions.len() >= MAX_SUBSCRIPTIONS
+            && !self.subscriptions.contains_key(&subscription.id)
+        {
             return Err(SubscriptionError::TooManySubscriptions {
                 max: MAX_SUBSCRIPTIONS,
             });
-- 
2.43.0


From a435d42aed6d0c214dc015d3098ad9a03d687196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 09/54] fix: re-storing a dialog must not duplicate it in the
 Call-ID index

---
 crates/sip-dialog/src/storage.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/storage.rs b/crates/sip-dialog/src/storage.rs
index fa383a9..f775715 100644
--- a/crates/sip-dialog/src/storage.rs
+++ b/crates/sip-dialog/src/storage.rs
@@ -62,7 +62,10 @@ impl DialogStore for InMemoryDialogStore {
         let dialog_id = dialog.id.clone();
         self.inner.insert(dialog.id.clone(), dialog);
         // Update secondary index
-        self.by_call_id.entry(call_id).or_default().push(dialog_id);
+        let mut ids = self.by_call_id.entry(call_id).or_default();
+        if !ids.contains(&dialog_id) {
+            ids.push(dialog_id);
+        }
     }
 
     async fn remove(&self, id: &DialogId) {
-- 
2.43.0


From 32a71d2b33e1755a4a3261fb57f91de805de73c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 10/54] fix: refresher parameter compares case-insensitively

---
 crates/sip-dialog/src/session_timer_manager.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/sip-dialog/src/session_timer_manager.rs b/crates/sip-dialog/src/session_timer_manager.rs
index f614998..0a27274 100644
--- a/crates/sip-dialog/src/session_timer_manager.rs
+++ b/crates/sip-dialog/src/session_timer_manager.rs
@@ -390,11 +390,8 @@ pub fn negotiate_session_expires(
 /// `true` if we are the refresher, `false` otherwise
 pub fn determine_refresher_role(refresher_param: Option<&str>, is_uac: bool) -> bool {
     match refresher_param {
-        Some("uac") => is_uac,
-        Some("uas") => !is_uac,
-        Some("UAC") => is_uac, // Case insensitive
-        Some("UAS") => !is_uac,
-        _ => is_uac, // Default: UAC is refresher if not specified
+        Some(role) if role.eq_ignore_ascii_case("uas") => !is_uac,
+        _ => is_uac, // "uac", or the default: UAC is refresher if not specified
     }
 }
 
-- 
2.43.0


From aebd2ea8521cb4e04afd9cfa4add57dcefa661ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 11/54] fix: a refreshed or stopped session timer must not fire

---
 .../sip-dialog/src/session_timer_manager.rs   | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/crates/sip-dialog/src/session_timer_manager.rs b/crates/sip-dialog/src/session_timer_manager.rs
index 0a27274..df1e5c3 100644
--- a/crates/sip-dialog/src/session_timer_manager.rs
+++ b/crates/sip-dialog/src/session_timer_manager.rs
@@ -145,14 +145,15 @@ impl SessionTimerManager {
             // If we're the refresher, schedule refresh event
             if is_refresher {
                 tokio::select! {
-                    _ = sleep(refresh_duration) => {
-                        // Emit refresh needed event
-                        let _ = event_tx.send(SessionTimerEvent::RefreshNeeded(dialog_id_clone.clone()));
-                    }
+                    biased;
                     _ = cancel_rx.recv() => {
                         // Timer cancelled
                         return;
                     }
+                    _ = sleep(refresh_duration) => {
+                        // Emit refresh needed event
+                        let _ = event_tx.send(SessionTimerEvent::RefreshNeeded(dialog_id_clone.clone()));
+                    }
                 }
             }
 
@@ -164,16 +165,20 @@ impl SessionTimerManager {
             };
 
             tokio::select! {
-                _ = sleep(remaining) => {
-                    // Session expired - emit expiration event
-                    let _ = event_tx.send(SessionTimerEvent::SessionExpired(dialog_id_clone.clone()));
-
-                    // Remove task from tracking
-                    tasks_ref.remove(&dialog_id_clone);
-                }
+                biased;
                 _ = cancel_rx.recv() => {
                     // Timer cancelled (dialog refreshed or terminated)
                 }
+                _ = sleep(remaining) => {
+                    // Session expired, unless this timer was replaced meanwhile:
+                    // only the timer still tracked may fire.
+                    let current = tasks_ref
+                        .remove_if(&dialog_id_clone, |_, task| task.expiry_time == expiry_time);
+                    if current.is_some() {
+                        let _ = event_tx
+                            .send(SessionTimerEvent::SessionExpired(dialog_id_clone.clone()));
+                    }
+                }
             }
         });
     }
-- 
2.43.0


From 7c93a1d38b351cb986cd2070571c218b6297333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 12/54] fix: Session-Expires refresher parameter name is
 case-insensitive, delta-seconds are digits only

---
 crates/sip-core/src/session_timer.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/session_timer.rs b/crates/sip-core/src/session_timer.rs
index a09dc54..a6fc928 100644
--- a/crates/sip-core/src/session_timer.rs
+++ b/crates/sip-core/src/session_timer.rs
@@ -134,6 +134,14 @@ impl fmt::Display for SessionTimerError {
 
 impl std::error::Error for SessionTimerError {}
 
+/// delta-seconds = 1*DIGIT (no sign)
+fn parse_delta_seconds(text: &str) -> Option<u32> {
+    if text.starts_with('+') {
+        return None;
+    }
+    text.parse::<u32>().ok()
+}
+
 // =============================================================================
 // End of Security Constants and Error Types
 // =============================================================================
@@ -332,7 +340,7 @@ impl SessionExpires {
         let parts: Vec<&str> = input.split(';').collect();
 
         // Parse delta-seconds
-        let delta_seconds = parts[0].trim().parse::<u32>().ok()?;
+        let delta_seconds = parse_delta_seconds(parts[0].trim())?;
 
         // Security: Validate range
         if delta_seconds < Self::minimum() || delta_seconds > Self::maximum() {
@@ -343,8 +351,10 @@ impl SessionExpires {
         let mut refresher = None;
         for part in &parts[1..] {
             let param = part.trim();
-            if let Some(value) = param.strip_prefix("refresher=") {
-                refresher = RefresherRole::parse(value.trim());
+            if let Some((name, value)) = param.split_once('=') {
+                if name.trim().eq_ignore_ascii_case("refresher") {
+                    refresher = RefresherRole::parse(value.trim());
+                }
             }
         }
 
@@ -564,7 +574,7 @@ impl MinSessionExpires {
             return None;
         }
 
-        let delta_seconds = input.parse::<u32>().ok()?;
+        let delta_seconds = parse_delta_seconds(input)?;
 
         // Security: Validate range
         if delta_seconds < Self::default_minimum() || delta_seconds > Self::maximum() {
-- 
2.43.0


From cb5a87360bbdf3874663804ee5ee89b6914775c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 13/54] fix: a retransmission interval cannot overflow when it
 doubles

---
 crates/sip-transaction/src/fsm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index cfcc81c..67c7400 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -618,7 +618,7 @@ impl ClientInviteFsm {
         }
 
         let t2 = self.timers.duration(TransactionTimer::T2);
-        self.a_interval = (self.a_interval * 2).min(t2);
+        self.a_interval = self.a_interval.saturating_mul(2).min(t2);
         if let Some(invite) = &self.last_invite {
             vec![
                 ClientInviteAction::Transmit {
@@ -766,7 +766,7 @@ impl ClientNonInviteFsm {
         }
 
         let t2 = self.timers.duration(TransactionTimer::T2);
-        self.e_interval = (self.e_interval * 2).min(t2);
+        self.e_interval = self.e_interval.saturating_mul(2).min(t2);
         if let Some(payload) = &self.last_request {
             vec![
                 ClientAction::Transmit {
@@ -1145,7 +1145,7 @@ impl ServerInviteFsm {
                 transport: TransportKind::Udp,
             };
             let t2 = self.timers.duration(TransactionTimer::T2);
-            self.g_interval = (self.g_interval * 2).min(t2);
+            self.g_interval = self.g_interval.saturating_mul(2).min(t2);
             vec![
                 action,
                 ServerInviteAction::Schedule {
-- 
2.43.0


From 4d269b4e4ee8cfd8c71fc81b49ad047b5f5b11b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 14/54] fix: Timer B ends an INVITE client transaction only
 while it waits for a first response

---
 crates/sip-transaction/src/fsm.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index 67c7400..50f234f 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -504,9 +504,8 @@ impl ClientInviteFsm {
                 }
             }
             (Calling, ClientInviteEvent::TimerFired(TransactionTimer::A)) => self.handle_timer_a(),
-            (Calling | Proceeding, ClientInviteEvent::TimerFired(TransactionTimer::B)) => {
-                self.handle_timer_b()
-            }
+            // Timer B only bounds the wait for a first response (RFC 3261 §17.1.1.2)
+            (Calling, ClientInviteEvent::TimerFired(TransactionTimer::B)) => self.handle_timer_b(),
             (Completed, ClientInviteEvent::TimerFired(TransactionTimer::D)) => {
                 self.handle_timer_d()
             }
-- 
2.43.0


From 37d8e4dd5ea71edc89bbc48b8d3212bf052024be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 15/54] fix: the first final response of an INVITE server
 transaction wins

---
 crates/sip-transaction/src/fsm.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index 50f234f..9009162 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -1015,9 +1015,8 @@ impl ServerInviteFsm {
             (Proceeding, ServerInviteEvent::ReceiveInvite(_)) => self.handle_receive_invite(),
             (Proceeding | Completed, ServerInviteEvent::ReceiveCancel) => self.handle_cancel(),
             (Proceeding, ServerInviteEvent::SendProvisional(resp)) => self.send_provisional(resp),
-            (Proceeding, ServerInviteEvent::SendFinal(resp))
-            | (Confirmed, ServerInviteEvent::SendFinal(resp))
-            | (Completed, ServerInviteEvent::SendFinal(resp)) => self.send_final(resp),
+            // The first final response wins: later ones are discarded
+            (Proceeding, ServerInviteEvent::SendFinal(resp)) => self.send_final(resp),
             (Completed, ServerInviteEvent::ReceiveAck) => self.handle_ack(),
             (Completed, ServerInviteEvent::TimerFired(TransactionTimer::G)) => {
                 self.handle_timer_g()
-- 
2.43.0


From 50cc144f1ea00cb36082ad7900ed35c237528e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 16/54] fix: a retransmitted non-2xx final response is
 acknowledged but not delivered again

---
 crates/sip-transaction/src/fsm.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index 9009162..b5b91d9 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -590,13 +590,18 @@ impl ClientInviteFsm {
         let mut actions = vec![
             ClientInviteAction::Cancel(TransactionTimer::A),
             ClientInviteAction::Cancel(TransactionTimer::B),
-            ClientInviteAction::Deliver(response.clone()),
-            ClientInviteAction::GenerateAck {
-                response,
-                is_2xx: false,
-            },
         ];
-        if !matches!(current_state, crate::ClientInviteState::Completed) {
+        // A retransmitted final response is acknowledged again but not passed
+        // to the TU again (RFC 3261 §17.1.1.2).
+        let first_final = !matches!(current_state, crate::ClientInviteState::Completed);
+        if first_final {
+            actions.push(ClientInviteAction::Deliver(response.clone()));
+        }
+        actions.push(ClientInviteAction::GenerateAck {
+            response,
+            is_2xx: false,
+        });
+        if first_final {
             actions.push(ClientInviteAction::Schedule {
                 timer: TransactionTimer::D,
                 duration: self.timers.duration(TransactionTimer::D), // 0 for TCP/TLS, 32s for UDP
-- 
2.43.0


From f5b1273ac677cdde0b11cf40cf98a26674af3deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 17/54] fix: Headers::reserve must not overflow on a huge
 request

---
 crates/sip-core/src/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-core/src/headers.rs b/crates/sip-core/src/headers.rs
index fc0704c..7c99b58 100644
--- a/crates/sip-core/src/headers.rs
+++ b/crates/sip-core/src/headers.rs
@@ -376,7 +376,7 @@ impl Headers {
     /// Reserves capacity for at least `additional` more headers.
     pub fn reserve(&mut self, additional: usize) {
         // Cap reservation to prevent excessive memory allocation
-        let new_total = self.inner.len() + additional;
+        let new_total = self.inner.len().saturating_add(additional);
         if new_total <= MAX_HEADERS {
             self.inner.reserve(additional);
         }
-- 
2.43.0


From eafbe1d229f816e4c20dc9f915aa585f47795104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 18/54] fix: keep method, target and body apart in the nonce
 retransmission hash

---
 crates/sip-auth/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 7ac0788..c53e20e 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -490,12 +490,13 @@ impl Nonce {
             // since the last successful auth, reject as potential replay
             return false;
         }
-        // Compute hash of request (method:uri:body bytes).
+        // Compute hash of request (method, uri and body bytes). The lengths keep the
+        // parts apart: "a" + ":b" must not hash like "a:" + "b".
         let mut ctx = Sha256::new();
+        ctx.update((method.as_str().len() as u64).to_be_bytes());
         ctx.update(method.as_str().as_bytes());
-        ctx.update(b":");
+        ctx.update((uri.len() as u64).to_be_bytes());
         ctx.update(uri.as_bytes());
-        ctx.update(b":");
         ctx.update(body);
         let request_hash = hex::encode(ctx.finalize());
 
-- 
2.43.0


From 09a258e5026388230defda2f1bf5777273b585fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 19/54] fix: evict at least one nonce when the nonce store is
 full

---
 crates/sip-auth/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index c53e20e..26133db 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -597,7 +597,7 @@ impl NonceManager {
 
             // If still at capacity after cleanup, remove oldest nonces
             if self.nonces.len() >= self.max_nonces {
-                self.remove_oldest(self.max_nonces / 10); // Remove 10% of capacity
+                self.remove_oldest((self.max_nonces / 10).max(1)); // Remove 10% of capacity
             }
         }
 
-- 
2.43.0


From 1df4dec1fac6d1f76dba4bb14deaf59107e0a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 20/54] fix: record a nonce use only after the digest response
 has been verified

---
 crates/sip-auth/src/lib.rs | 52 ++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 26133db..3f7e2a1 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -628,6 +628,20 @@ impl NonceManager {
         }
     }
 
+    /// The same checks as [`Self::verify_with_nc`] without recording the use, so that a
+    /// request whose digest turns out to be wrong leaves the nonce as it was.
+    fn check_nc(&self, value: &str, nc: u32, method: &Method, uri: &str, body: &[u8]) -> bool {
+        if let Some(entry) = self.nonces.get(value) {
+            if !entry.is_valid() {
+                return false;
+            }
+            let mut probe = entry.clone();
+            probe.validate_nc_with_request(nc, method, uri, body, self.max_request_age)
+        } else {
+            false
+        }
+    }
+
     /// Basic verification without nonce-count tracking (for backwards compatibility).
     /// Use verify_with_nc() for proper replay protection.
     pub fn verify(&self, value: &str) -> bool {
@@ -809,6 +823,7 @@ struct DigestParams {
     nonce: SmolStr,
     uri: SmolStr,
     response: SmolStr,
+    nc: Option<u32>,
     nc_raw: Option<SmolStr>,
     cnonce: Option<SmolStr>,
     qop: Option<Qop>,
@@ -987,7 +1002,7 @@ impl<S> DigestAuthenticator<S> {
             return Ok(None);
         }
 
-        let _validated_nc = if let Some(nc_str) = nc {
+        let validated_nc = if let Some(nc_str) = nc {
             let nc_value = u32::from_str_radix(nc_str.as_str(), 16)
                 .map_err(|_| anyhow!("invalid nc format"))?;
 
@@ -1004,7 +1019,8 @@ impl<S> DigestAuthenticator<S> {
                 return Ok(None);
             }
 
-            if !self.nonce_manager.verify_with_nc(
+            // Only looked at here; recorded once the digest has been verified.
+            if !self.nonce_manager.check_nc(
                 nonce,
                 nc_value,
                 request.method(),
@@ -1029,11 +1045,27 @@ impl<S> DigestAuthenticator<S> {
             nonce: nonce.clone(),
             uri: uri.clone(),
             response: response.clone(),
+            nc: validated_nc,
             nc_raw: nc.cloned(),
             cnonce: cnonce.cloned(),
             qop,
         }))
     }
+
+    /// Records the use of the nonce by a request whose digest has been verified.
+    /// Returns false if another request has used the nonce count in the meantime.
+    fn record_nonce_use(&self, request: &Request, params: &DigestParams) -> bool {
+        match params.nc {
+            Some(nc) => self.nonce_manager.verify_with_nc(
+                params.nonce.as_str(),
+                nc,
+                request.method(),
+                request.uri().as_str(),
+                request.body(),
+            ),
+            None => true,
+        }
+    }
 }
 
 impl<S> DigestAuthenticator<S> {
@@ -1363,10 +1395,10 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
             request.body().as_ref(),
         );
 
-        Ok(constant_time_eq(
-            response_calc.as_bytes(),
-            params.response.as_bytes(),
-        ))
+        if !constant_time_eq(response_calc.as_bytes(), params.response.as_bytes()) {
+            return Ok(false);
+        }
+        Ok(self.record_nonce_use(request, &params))
     }
 
     fn credentials_for(&self, _method: &Method, _uri: &str) -> Option<Credentials> {
@@ -1426,10 +1458,10 @@ impl<S: AsyncCredentialStore> DigestAuthenticator<S> {
             request.body().as_ref(),
         );
 
-        Ok(constant_time_eq(
-            response_calc.as_bytes(),
-            params.response.as_bytes(),
-        ))
+        if !constant_time_eq(response_calc.as_bytes(), params.response.as_bytes()) {
+            return Ok(false);
+        }
+        Ok(self.record_nonce_use(request, &params))
     }
 }
 
-- 
2.43.0


From a9111a082aff6cd4fb2961b8d860782dc0c1cb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 21/54] fix: expired bindings count toward the registrar's
 limits, and a refresh is refused at the total limit

---
 crates/sip-registrar/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 34f7be2..d672ccc 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -859,15 +859,25 @@ impl LocationStore for MemoryLocationStore {
         let expires_at = Instant::now() + binding.expires();
         let aor_key = SmolStr::new(binding.aor());
 
-        // Check total bindings limit (DoS prevention)
-        let total_bindings: usize = self.inner.iter().map(|entry| entry.len()).sum();
+        // Check total bindings limit (DoS prevention). Expired bindings do not
+        // count, and neither does the binding we're about to replace.
+        let mut total_bindings: usize = self.inner.iter().map(|entry| entry.len()).sum();
         if total_bindings >= MAX_TOTAL_BINDINGS {
+            LocationStore::cleanup_expired(self)?;
+            total_bindings = self.inner.iter().map(|entry| entry.len()).sum();
+        }
+        let replaces = match self.inner.get(&aor_key) {
+            Some(list) => list.iter().any(|b| b.contact == binding.contact()),
+            None => false,
+        };
+        if total_bindings >= MAX_TOTAL_BINDINGS && !replaces {
             return Err(anyhow::anyhow!(RegistrationError::TooManyBindings {
                 max: MAX_TOTAL_BINDINGS,
             }));
         }
 
         let mut list = self.inner.entry(aor_key.clone()).or_default();
+        list.retain(|b| b.expires_at > Instant::now());
 
         // Check per-AOR bindings limit (DoS prevention)
         // Don't count the binding we're about to replace
-- 
2.43.0


From 8b83bdb09a664c10c4fd51d531feda6f657fd986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 22/54] fix: a user name containing an encoded '@' registers as
 the text before it

---
 crates/sip-registrar/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index d672ccc..1ba9175 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -318,8 +318,9 @@ pub(crate) fn aor_identity(aor: &str) -> Option<&str> {
         let number = rest.split(';').next().unwrap_or(rest);
         (!number.is_empty()).then_some(number)
     } else {
-        // sip/sips: the identity is the user part before '@'.
-        rest.split_once('@').map(|(user, _)| user)
+        // sip/sips: the identity is the user part before the last '@'
+        // (the user is stored percent-decoded and may itself contain '@').
+        rest.rsplit_once('@').map(|(user, _)| user)
     }
 }
 
-- 
2.43.0


From f7490708e42cf8b4c53dd0001edabfb6c481a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 23/54] fix: a replayed wildcard REGISTER removes newer
 bindings

---
 crates/sip-registrar/src/lib.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 1ba9175..1ae9552 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1635,6 +1635,17 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                     "Bad Request - Wildcard Contact requires Expires: 0",
                 );
             }
+            // RFC 3261 §10.3 step 6: the same Call-ID must carry a higher CSeq
+            // than every binding it removes.
+            for binding in &self.store.lookup(&aor).await? {
+                if binding.call_id == call_id && cseq <= binding.cseq {
+                    return self.build_error_response(
+                        request,
+                        400,
+                        "Bad Request - CSeq out of order",
+                    );
+                }
+            }
             self.store.remove_all(&aor).await?;
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
 
@@ -1985,6 +1996,17 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                     "Bad Request - Wildcard Contact requires Expires: 0",
                 );
             }
+            // RFC 3261 §10.3 step 6: the same Call-ID must carry a higher CSeq
+            // than every binding it removes.
+            for binding in &self.store.lookup(&aor)? {
+                if binding.call_id == call_id && cseq <= binding.cseq {
+                    return self.build_error_response(
+                        request,
+                        400,
+                        "Bad Request - CSeq out of order",
+                    );
+                }
+            }
             // Remove all bindings for this AOR
             self.store.remove_all(&aor)?;
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
-- 
2.43.0


From 1f1bee3b6baf53a8ca77957a58ef2913e628e89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 24/54] fix: a REGISTER refused part way leaves the contacts
 processed before it changed

---
 crates/sip-registrar/src/lib.rs | 54 +++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 1ae9552..bbe0de2 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1691,10 +1691,13 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
 
         let existing = self.store.lookup(&aor).await?;
         let mut existing_by_contact = std::collections::HashMap::new();
-        for binding in existing {
+        for binding in &existing {
             existing_by_contact.insert(SmolStr::new(binding.contact()), binding);
         }
 
+        // RFC 3261 §10.3 step 7: either every contact is processed or none is,
+        // so nothing is stored before the whole request has been validated.
+        let mut updates: Vec<(SmolStr, Option<Binding>)> = Vec::new();
         for contact in &contacts {
             let contact_uri = match self.extract_contact_uri(contact.as_str()) {
                 Ok(uri) => uri,
@@ -1775,8 +1778,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             }
 
             if expires.as_secs() == 0 {
-                self.store.remove(&aor, contact_uri.as_str()).await?;
-                info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding");
+                updates.push((contact_uri, None));
             } else {
                 let mut binding =
                     Binding::new(SmolStr::new(aor.clone()), contact_uri.clone(), expires)?
@@ -1797,11 +1799,26 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                     binding = binding.with_reg_id(reg_id);
                 }
 
-                self.store.upsert(binding).await?;
-                info!(aor = %aor, contact = %contact_uri, expires = %expires.as_secs(), "REGISTER stored binding");
+                updates.push((contact_uri, Some(binding)));
             }
         }
 
+        for (contact_uri, update) in updates {
+            let outcome = match update {
+                Some(binding) => self.store.upsert(binding).await,
+                None => self.store.remove(&aor, contact_uri.as_str()).await,
+            };
+            if let Err(e) = outcome {
+                warn!(aor = %aor, contact = %contact_uri, "REGISTER store failure, restoring bindings");
+                self.store.remove_all(&aor).await?;
+                for binding in existing {
+                    self.store.upsert(binding).await?;
+                }
+                return Err(e);
+            }
+            info!(aor = %aor, contact = %contact_uri, "REGISTER updated binding");
+        }
+
         let mut headers = Headers::new();
 
         if let Some(via) = request.headers().get("Via") {
@@ -2061,10 +2078,13 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         // Process each contact
         let existing = self.store.lookup(&aor)?;
         let mut existing_by_contact = std::collections::HashMap::new();
-        for binding in existing {
+        for binding in &existing {
             existing_by_contact.insert(binding.contact.clone(), binding);
         }
 
+        // RFC 3261 §10.3 step 7: either every contact is processed or none is,
+        // so nothing is stored before the whole request has been validated.
+        let mut updates: Vec<(SmolStr, Option<Binding>)> = Vec::new();
         for contact in &contacts {
             let contact_uri = match self.extract_contact_uri(contact.as_str()) {
                 Ok(uri) => uri,
@@ -2147,8 +2167,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
 
             if expires.as_secs() == 0 {
                 // Remove binding
-                self.store.remove(&aor, contact_uri.as_str())?;
-                info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding");
+                updates.push((contact_uri, None));
             } else {
                 // Add or update binding
                 let mut binding =
@@ -2170,9 +2189,24 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                     binding = binding.with_reg_id(reg_id);
                 }
 
-                self.store.upsert(binding)?;
-                info!(aor = %aor, contact = %contact_uri, expires = %expires.as_secs(), "REGISTER stored binding");
+                updates.push((contact_uri, Some(binding)));
+            }
+        }
+
+        for (contact_uri, update) in updates {
+            let outcome = match update {
+                Some(binding) => self.store.upsert(binding),
+                None => self.store.remove(&aor, contact_uri.as_str()),
+            };
+            if let Err(e) = outcome {
+                warn!(aor = %aor, contact = %contact_uri, "REGISTER store failure, restoring bindings");
+                self.store.remove_all(&aor)?;
+                for binding in existing {
+                    self.store.upsert(binding)?;
+                }
+                return Err(e);
             }
+            info!(aor = %aor, contact = %contact_uri, "REGISTER updated binding");
         }
 
         // Build response
-- 
2.43.0


From 2209994928159e1c9436a2b6cfe11c1083f96912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 25/54] fix: the registrar authorizes by the credentials header
 the authenticator verified

---
 crates/sip-auth/src/lib.rs      | 17 +++++++++++++++++
 crates/sip-registrar/src/lib.rs | 10 ++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 3f7e2a1..4ec207f 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -174,6 +174,13 @@ pub trait Authenticator: Send + Sync {
     fn challenge_stale(&self, request: &Request) -> Result<Response> {
         self.challenge(request)
     }
+
+    /// The user name that [`Self::verify`] checks for this request. Default
+    /// reads whichever credentials header is present; implementations that
+    /// verify one particular header must answer from that header.
+    fn authenticated_username(&self, request: &Request) -> Option<SmolStr> {
+        extract_auth_username(request.headers())
+    }
 }
 
 /// Credential store abstraction for server-side verification.
@@ -1430,6 +1437,16 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
     fn challenge_stale(&self, request: &Request) -> Result<Response> {
         DigestAuthenticator::challenge_stale(self, request)
     }
+
+    fn authenticated_username(&self, request: &Request) -> Option<SmolStr> {
+        let header_name = if self.proxy_auth {
+            "Proxy-Authorization"
+        } else {
+            "Authorization"
+        };
+        let parsed = parse_authorization_header(request.headers().get_smol(header_name)?)?;
+        parsed.param("username").cloned()
+    }
 }
 
 impl<S: AsyncCredentialStore> DigestAuthenticator<S> {
diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index bbe0de2..8d3b0d1 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1564,13 +1564,14 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
         // authenticated user has authority to register for this AOR.
         // RFC 3261 §10.3 step 4: The registrar SHOULD verify that the authenticated
         // user is authorized to modify registrations for the To address-of-record.
-        if self.authenticator.is_some() {
+        if let Some(auth) = &self.authenticator {
             // Fail closed: reject unless the AOR carries an identity that
             // matches the authenticated user. AORs with no user part (`tel:`
             // numbers and host-only SIP URIs) previously yielded `None` and
             // skipped this check entirely, letting any authenticated user
             // hijack another party's `tel:` / host-only registration.
-            let authorized = sip_auth::extract_auth_username(request.headers())
+            let authorized = auth
+                .authenticated_username(request)
                 .and_then(|auth_user| {
                     aor_identity(&aor).map(|id| usernames_equal(id, auth_user.as_str()))
                 })
@@ -1939,13 +1940,14 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         // authenticated user has authority to register for this AOR.
         // RFC 3261 §10.3 step 4: The registrar SHOULD verify that the authenticated
         // user is authorized to modify registrations for the To address-of-record.
-        if self.authenticator.is_some() {
+        if let Some(auth) = &self.authenticator {
             // Fail closed: reject unless the AOR carries an identity that
             // matches the authenticated user. AORs with no user part (`tel:`
             // numbers and host-only SIP URIs) previously yielded `None` and
             // skipped this check entirely, letting any authenticated user
             // hijack another party's `tel:` / host-only registration.
-            let authorized = sip_auth::extract_auth_username(request.headers())
+            let authorized = auth
+                .authenticated_username(request)
                 .and_then(|auth_user| {
                     aor_identity(&aor).map(|id| usernames_equal(id, auth_user.as_str()))
                 })
-- 
2.43.0


From 007fb18a9c627b6bc76ed50f6c0b89b1b0367223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 26/54] fix: the registrar finds a Contact's address and
 parameters inside quoted strings

---
 crates/sip-registrar/src/lib.rs | 36 ++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 8d3b0d1..a469496 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1247,7 +1247,7 @@ impl<S, A> BasicRegistrar<S, A> {
         let trimmed = contact_header.trim();
 
         // Handle <uri> format
-        if let Some(start) = trimmed.find('<') {
+        if let Some(start) = find_unquoted(trimmed, '<') {
             let end = trimmed[start + 1..]
                 .find('>')
                 .ok_or(ContactHeaderError::Invalid)?;
@@ -1282,7 +1282,7 @@ impl<S, A> BasicRegistrar<S, A> {
             return Ok(None);
         }
 
-        let params_section = if let Some(start) = trimmed.find('<') {
+        let params_section = if let Some(start) = find_unquoted(trimmed, '<') {
             let end = trimmed[start + 1..]
                 .find('>')
                 .ok_or(ContactParamError::Invalid)?;
@@ -1300,7 +1300,7 @@ impl<S, A> BasicRegistrar<S, A> {
             return Ok(None);
         }
 
-        for param in params.split(';') {
+        for param in split_unquoted(params, ';') {
             let param = param.trim();
             if param.is_empty() {
                 continue;
@@ -2298,6 +2298,36 @@ fn ensure_to_tag(to_header: &str) -> SmolStr {
     SmolStr::new(format!("{};tag={}", to_header, tag))
 }
 
+/// Position of the first `wanted` that is not inside a quoted string.
+fn find_unquoted(input: &str, wanted: char) -> Option<usize> {
+    let mut in_quotes = false;
+    let mut escape_next = false;
+    for (pos, ch) in input.char_indices() {
+        if escape_next {
+            escape_next = false;
+        } else if ch == '\\' && in_quotes {
+            escape_next = true;
+        } else if ch == '"' {
+            in_quotes = !in_quotes;
+        } else if ch == wanted && !in_quotes {
+            return Some(pos);
+        }
+    }
+    None
+}
+
+/// Splits at every `sep` that is not inside a quoted string.
+fn split_unquoted(input: &str, sep: char) -> Vec<&str> {
+    let mut parts = Vec::new();
+    let mut rest = input;
+    while let Some(pos) = find_unquoted(rest, sep) {
+        parts.push(&rest[..pos]);
+        rest = &rest[pos + sep.len_utf8()..];
+    }
+    parts.push(rest);
+    parts
+}
+
 fn split_quoted_commas(input: &str) -> Vec<String> {
     let mut parts = Vec::new();
     let mut current = String::new();
-- 
2.43.0


From 36ae06057577ef8767c928748340c3a20f07f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 27/54] fix: a registered contact with URI parameters is listed
 without angle brackets

---
 crates/sip-registrar/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index a469496..cf121a6 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -2267,6 +2267,13 @@ pub fn contact_headers(headers: &Headers) -> Vec<SmolStr> {
 }
 
 fn format_contact(contact_uri: &SmolStr, expires: Duration, q_value: f32) -> SmolStr {
+    // RFC 3261 §20.10: a URI with a comma, semicolon or question mark must be
+    // enclosed, or its parameters would become Contact parameters.
+    let contact_uri = if contact_uri.contains([',', ';', '?']) {
+        format!("<{}>", contact_uri)
+    } else {
+        contact_uri.to_string()
+    };
     if expires.as_secs() == 0 {
         SmolStr::new(format!("{};expires=0", contact_uri))
     } else {
-- 
2.43.0


From 0758b6952c5e17953f5bb488ab2529c6c687bc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:56 +0000
Subject: [PATCH 28/54] fix: a rate-limited REGISTER with a long To header
 panics in the async handler

---
 crates/sip-registrar/src/lib.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index cf121a6..87ed48e 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1497,13 +1497,11 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                 if let Some(key) = key_fn(request) {
                     if !limiter.check_rate_limit(key.as_str()) {
                         warn!(key = %key, "REGISTER rate limit exceeded");
-                        return Ok(self
-                            .build_error_response(
-                                request,
-                                503,
-                                "Service Unavailable - Rate Limit Exceeded",
-                            )
-                            .expect("valid request"));
+                        return self.build_error_response(
+                            request,
+                            503,
+                            "Service Unavailable - Rate Limit Exceeded",
+                        );
                     }
                 }
             } else {
-- 
2.43.0


From 1352ea6e49bd512793937736dd229ef4053ac604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:00 +0000
Subject: [PATCH 29/54] fix: DHCP Option 120 names that are not decodable host
 names are refused

Labels with undecodable bytes were rewritten, a dot inside a label became a
separator, control characters and names longer than 253 bytes were accepted.
---
 crates/sip-dns/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 244105f..0b3b7d1 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -1026,8 +1026,15 @@ fn parse_dhcp_domain_names(data: &[u8]) -> Result<Vec<DhcpSipServer>> {
                 return Err(anyhow!("Invalid domain name label length"));
             }
 
-            let label = &data[pos..pos + len];
-            labels.push(String::from_utf8_lossy(label).to_string());
+            // A label is taken as it is or not at all: replacing undecodable
+            // bytes, or letting a '.' inside a label pass as a separator,
+            // would name a different host than the one that was encoded.
+            let label = std::str::from_utf8(&data[pos..pos + len])
+                .map_err(|_| anyhow!("Invalid domain name label"))?;
+            if label.contains('.') {
+                return Err(anyhow!("Invalid domain name label"));
+            }
+            labels.push(label.to_string());
             pos += len;
         }
 
@@ -1038,6 +1045,7 @@ fn parse_dhcp_domain_names(data: &[u8]) -> Result<Vec<DhcpSipServer>> {
             return Err(anyhow!("Empty domain name"));
         } else {
             let domain = labels.join(".");
+            validate_hostname(&domain)?;
             servers.push(DhcpSipServer::Domain(SmolStr::new(domain)));
         }
     }
-- 
2.43.0


From 05994a3edfe3465906c5667796f7baaf541a09be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:44 +0000
Subject: [PATCH 30/54] fix: a NAPTR replacement is the SRV name, not a host to
 prefix again
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

RFC 3263 §4.1 / RFC 3403: the replacement of an "s" NAPTR record is the
owner name of the SRV records (_sips._tcp.example.com). The resolver put
another _service._proto in front of it, found nothing, and lost every
server the NAPTR and SRV records listed, using the A records instead.
---
 crates/sip-dns/src/lib.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 0b3b7d1..7e8da76 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -482,22 +482,21 @@ impl SipResolver {
         let mut all_targets = Vec::new();
         if let Some(records) = naptr_records {
             for record in records {
-                let lookup_host = record
-                    .replacement
-                    .as_ref()
-                    .map(|replacement| replacement.as_str())
-                    .unwrap_or(host);
-                if let Ok(targets) = self
-                    .lookup_srv(lookup_host, record.transport, uri.is_sips())
-                    .await
-                {
+                // RFC 3263 §4.1: the replacement is the owner name of the
+                // SRV records, used as it is.
+                let srv_name = match record.replacement.as_ref() {
+                    Some(replacement) => replacement.to_string(),
+                    None => Self::srv_name(host, record.transport, uri.is_sips()),
+                };
+                if let Ok(targets) = self.lookup_srv(&srv_name, record.transport).await {
                     all_targets.extend(targets);
                 }
             }
         } else {
             let transports = self.default_transport_order(uri);
             for transport in transports {
-                if let Ok(targets) = self.lookup_srv(host, transport, uri.is_sips()).await {
+                let srv_name = Self::srv_name(host, transport, uri.is_sips());
+                if let Ok(targets) = self.lookup_srv(&srv_name, transport).await {
                     all_targets.extend(targets);
                 }
             }
@@ -642,20 +641,18 @@ impl SipResolver {
         Ok(records)
     }
 
-    /// Performs SRV lookup per RFC 3263 §4.2.
-    async fn lookup_srv(
-        &self,
-        host: &str,
-        transport: Transport,
-        sips: bool,
-    ) -> Result<Vec<DnsTarget>> {
+    /// Returns the SRV name of a service of a host (RFC 3263 §4.2).
+    fn srv_name(host: &str, transport: Transport, sips: bool) -> String {
         let service = transport.as_service_str(sips);
         let proto = transport.as_proto_str();
-        let srv_name = format!("{}._{}.{}", service, proto, host);
+        format!("{}._{}.{}", service, proto, host)
+    }
 
+    /// Performs SRV lookup per RFC 3263 §4.2.
+    async fn lookup_srv(&self, srv_name: &str, transport: Transport) -> Result<Vec<DnsTarget>> {
         let lookup = tokio::time::timeout(
             self.query_timeout,
-            self.resolver.srv_lookup(srv_name.clone()),
+            self.resolver.srv_lookup(srv_name.to_string()),
         )
         .await
         .map_err(|_| {
-- 
2.43.0


From 827bb2890aecdec6c98a60320eb826c4131d77e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:49 +0000
Subject: [PATCH 31/54] fix: a signed Content-Length is invalid, one too long
 for 64 bits is oversized

`str::parse` takes a leading '+', so "Content-Length: +5" framed a body
even in strict mode. A length of more digits than fit in 64 bits was
reported as Invalid instead of Oversized, so the tolerant parser ignored
it and took the rest of the datagram as the body although lengths over
the limit are to be refused.
---
 crates/sip-parse/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index a6678f2..50541fe 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -479,10 +479,16 @@ fn parse_content_length_value(value: &SmolStr) -> Option<usize> {
 fn parse_content_length_detailed(value: &SmolStr) -> Result<usize, ContentLengthError> {
     let trimmed = value.trim();
 
-    // Parse to u64 first to detect overflow on 32-bit systems
+    // Strict ABNF: 1*DIGIT. `parse` alone would take a leading '+'.
+    if trimmed.is_empty() || !trimmed.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(ContentLengthError::Invalid);
+    }
+
+    // Parse to u64 first to detect overflow on 32-bit systems. Digits that
+    // do not fit are a length beyond every limit.
     let value_u64 = trimmed
         .parse::<u64>()
-        .map_err(|_| ContentLengthError::Invalid)?;
+        .map_err(|_| ContentLengthError::Oversized)?;
 
     // Check if value fits in usize (prevents overflow on 32-bit)
     if value_u64 > usize::MAX as u64 {
-- 
2.43.0


From ed053fc664feb94fe994e8dcbe2ae36438b8b76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:49 +0000
Subject: [PATCH 32/54] fix: a response with an empty reason phrase is parsed
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

RFC 3261 §25.1 allows an empty Reason-Phrase, StatusLine accepts one and
serialize_response writes it, but the parser refused what it wrote: the
line is trimmed, and a space was then required after the code.
---
 crates/sip-parse/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index 50541fe..77f1f8d 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -307,10 +307,15 @@ fn parse_status_line(line: &str) -> Option<StatusLine> {
         tag_no_case::<_, _, nom::error::Error<_>>("SIP/2.0"),
         space1::<_, nom::error::Error<_>>,
         nom_u16::<_, nom::error::Error<_>>,
-        space1::<_, nom::error::Error<_>>,
         rest::<_, nom::error::Error<_>>,
     ));
-    let (_, (_, _, code, _, reason)) = parser(line.trim()).ok()?;
+    let (_, (_, _, code, reason)) = parser(line.trim()).ok()?;
+
+    // The reason phrase may be empty (RFC 3261 §25.1), and then the space
+    // before it is gone with the trimming.
+    if !(reason.is_empty() || reason.starts_with(' ') || reason.starts_with('\t')) {
+        return None;
+    }
 
     StatusLine::new(code, reason.trim()).ok()
 }
-- 
2.43.0


From 6e08ace7c4ee2432a86bc764e8a961ff2038afd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:41 +0000
Subject: [PATCH 33/54] fix: the user part of a SIP URI runs to the first '@',
 past any ';' or '?'

---
 crates/sip-core/src/uri.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index a93bb5a..5dca4a5 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -337,6 +337,13 @@ impl SipUri {
             )));
         }
 
+        // The user part runs up to the first '@', even past a ';' or '?' (RFC 3261 §19.1.1):
+        // in `sip:example.com;x=@example.org` the host is example.org.
+        let (user_part, rest) = match rest.split_once('@') {
+            Some((user_part, rest)) => (Some(user_part), rest),
+            None => (None, rest),
+        };
+
         let (addr_part, headers_part) = match rest.split_once('?') {
             Some((addr, headers)) => (addr, Some(headers)),
             None => (rest, None),
@@ -374,18 +381,19 @@ impl SipUri {
             }
         }
 
-        let (user, host_port) = match base.split_once('@') {
-            Some((user_part, host)) => {
+        let user = match user_part {
+            Some(user_part) => {
                 let decoded = percent_decode_str(user_part.trim())
                     .decode_utf8()
                     .map_err(|e| UriError::PercentDecodingError(e.to_string()))?;
 
                 validate_user(&decoded)?;
-                (Some(SmolStr::new(&*decoded)), host.trim())
+                Some(SmolStr::new(&*decoded))
             }
-            None => (None, base.trim()),
+            None => None,
         };
 
+        let host_port = base;
         if host_port.is_empty() {
             return Err(UriError::InvalidFormat("missing host".to_string()));
         }
-- 
2.43.0


From fe7534f259798021f61bad189faffc9c5fd97903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 34/54] fix: brackets enclose IPv6 literals only, and only a
 port may follow them

---
 crates/sip-core/src/uri.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 5dca4a5..198efb9 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -406,6 +406,13 @@ impl SipUri {
 
         validate_host(&decoded_host)?;
 
+        // Brackets are for IPv6 literals, and IPv6 literals need them (RFC 3261 §25.1).
+        if decoded_host.contains(':') != host_port.starts_with('[') {
+            return Err(UriError::InvalidHost(
+                "brackets must enclose an IPv6 literal".to_string(),
+            ));
+        }
+
         if let Some(p) = port {
             validate_port(p)?;
         }
@@ -751,13 +758,19 @@ fn split_host_port(input: &str) -> Result<(&str, Option<u16>), UriError> {
         let host = &input[1..end];
         let remainder = &input[end + 1..];
 
-        if let Some(stripped) = remainder.strip_prefix(':') {
-            let port = stripped
-                .parse()
-                .map_err(|_| UriError::InvalidPort("invalid port number".to_string()))?;
-            Ok((host, Some(port)))
-        } else {
-            Ok((host, None))
+        if remainder.is_empty() {
+            return Ok((host, None));
+        }
+        match remainder.strip_prefix(':') {
+            Some(digits) if digits.chars().all(|c| c.is_ascii_digit()) => {
+                let port = digits
+                    .parse()
+                    .map_err(|_| UriError::InvalidPort("invalid port number".to_string()))?;
+                Ok((host, Some(port)))
+            }
+            _ => Err(UriError::InvalidPort(
+                "expected a port after the closing bracket".to_string(),
+            )),
         }
     } else if let Some(idx) = input.rfind(':') {
         // If multiple colons (unbracketed IPv6), invalid
-- 
2.43.0


From ad88b5b80e38335204363a5dd678deedb0339958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 35/54] fix: SipUri::new brackets an IPv6 host; hosts set
 directly are lower-cased as parsed ones are

---
 crates/sip-core/src/uri.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 198efb9..c61690c 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -296,17 +296,17 @@ impl SipUri {
         let host = host.into();
         validate_host(&host)?;
 
-        let raw = SmolStr::new(format!("sip:{}", host));
-
-        Ok(Self {
-            raw,
+        let mut uri = Self {
+            raw: SmolStr::default(),
             sips: false,
             user: None,
-            host,
+            host: SmolStr::new(host.to_ascii_lowercase()),
             port: None,
             params: BTreeMap::new(),
             headers: BTreeMap::new(),
-        })
+        };
+        uri.raw = build_raw_sip_uri(&uri);
+        Ok(uri)
     }
 
     /// Attempts to parse a SIP or SIPS URI from the provided string.
@@ -491,7 +491,7 @@ impl SipUri {
     pub fn with_host(mut self, host: impl Into<SmolStr>) -> Result<Self, UriError> {
         let host = host.into();
         validate_host(&host)?;
-        self.host = host;
+        self.host = SmolStr::new(host.to_ascii_lowercase());
         self.raw = build_raw_sip_uri(&self);
         Ok(self)
     }
-- 
2.43.0


From 07723ebf50415a2a473b3baa4ac57515bbbc146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 36/54] fix: the user part is percent-encoded when a SIP URI is
 printed from its parts

---
 crates/sip-core/src/uri.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index c61690c..7557ccb 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -7,7 +7,7 @@
 use std::collections::BTreeMap;
 use std::fmt;
 
-use percent_encoding::percent_decode_str;
+use percent_encoding::{percent_decode_str, utf8_percent_encode, AsciiSet, NON_ALPHANUMERIC};
 use smol_str::SmolStr;
 
 use crate::TelUri;
@@ -24,6 +24,25 @@ const MAX_PARAMS: usize = 50;
 const MAX_HEADERS: usize = 50;
 const MAX_ABSOLUTE_URI_LENGTH: usize = 2048;
 
+/// What is percent-encoded in a printed user part: everything but unreserved characters,
+/// `& = + $ ,` and the `:` before a password (RFC 3261 §25.1).
+const USER_ESCAPE: &AsciiSet = &NON_ALPHANUMERIC
+    .remove(b'-')
+    .remove(b'_')
+    .remove(b'.')
+    .remove(b'!')
+    .remove(b'~')
+    .remove(b'*')
+    .remove(b'\'')
+    .remove(b'(')
+    .remove(b')')
+    .remove(b'&')
+    .remove(b'=')
+    .remove(b'+')
+    .remove(b'$')
+    .remove(b',')
+    .remove(b':');
+
 /// Error types for URI operations.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub enum UriError {
@@ -806,7 +825,7 @@ fn build_raw_sip_uri(uri: &SipUri) -> SmolStr {
     let mut out = String::new();
     out.push_str(if uri.sips { "sips:" } else { "sip:" });
     if let Some(user) = &uri.user {
-        out.push_str(user.as_str());
+        out.push_str(&utf8_percent_encode(user.as_str(), USER_ESCAPE).to_string());
         out.push('@');
     }
     if uri.host.contains(':') && !uri.host.starts_with('[') && !uri.host.ends_with(']') {
-- 
2.43.0


From 527e88867591493037ce76bc637d927b15781a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 37/54] fix: a SIP URI parameter value may not contain
 whitespace or URI delimiters

---
 crates/sip-core/src/uri.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 7557ccb..f7d55a3 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -236,6 +236,17 @@ fn validate_param_value(value: &str) -> Result<(), UriError> {
         ));
     }
 
+    // Whitespace and the delimiters that would start another parameter,
+    // the headers or the host when the printed URI is parsed.
+    if value
+        .chars()
+        .any(|c| c.is_whitespace() || matches!(c, ';' | '?' | '@'))
+    {
+        return Err(UriError::InvalidParameter(
+            "parameter value contains reserved characters".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 0e73e9f2e2cabc2ed451ebee3911fa17de031428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 38/54] fix: a SIP URI header without '=' is refused instead of
 dropped

---
 crates/sip-core/src/uri.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index f7d55a3..6e54100 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -467,6 +467,8 @@ impl SipUri {
                     validate_header_name(k)?;
                     validate_header_value(v)?;
                     headers.insert(SmolStr::new(k.to_ascii_lowercase()), SmolStr::new(v));
+                } else {
+                    return Err(UriError::InvalidHeader("missing '='".to_string()));
                 }
             }
         }
-- 
2.43.0


From 470badf15dc5e0c8bbd007674438d784f3833807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 39/54] fix: sip, sips and tel schemes are recognised whatever
 their case or surrounding blanks

---
 crates/sip-core/src/tel_uri.rs |  9 +++++----
 crates/sip-core/src/uri.rs     | 12 +++++++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 1863b17..3705787 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -348,10 +348,11 @@ impl TelUri {
     pub fn parse(input: &str) -> Result<Self, TelUriError> {
         let raw = SmolStr::new(input);
 
-        // Must start with "tel:"
-        let rest = input
-            .strip_prefix("tel:")
-            .ok_or(TelUriError::InvalidScheme)?;
+        // Must start with "tel:" (schemes are case-insensitive)
+        let rest = match input.split_once(':') {
+            Some((scheme, rest)) if scheme.eq_ignore_ascii_case("tel") => rest,
+            _ => return Err(TelUriError::InvalidScheme),
+        };
 
         // Split into number and parameters
         let mut parts = rest.split(';');
diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 6e54100..fbc5759 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -634,12 +634,18 @@ impl Uri {
             ));
         }
 
-        // Try tel URI first (more specific prefix)
-        if input.starts_with("tel:") {
+        // Schemes are case-insensitive (RFC 3986 §3.1); surrounding blanks are not part of the URI.
+        let input = input.trim();
+        let scheme = match input.split_once(':') {
+            Some((scheme, _)) => scheme,
+            None => "",
+        };
+
+        if scheme.eq_ignore_ascii_case("tel") {
             TelUri::parse(input)
                 .map(Uri::Tel)
                 .map_err(|e| UriError::InvalidFormat(e.to_string()))
-        } else if input.starts_with("sip:") || input.starts_with("sips:") {
+        } else if scheme.eq_ignore_ascii_case("sip") || scheme.eq_ignore_ascii_case("sips") {
             SipUri::parse(input).map(Uri::Sip)
         } else {
             parse_absolute_uri(input).map(Uri::Absolute)
-- 
2.43.0


From 884b10f7008228b6db6855a22458b294a0e39226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 40/54] fix: a tel URI with control characters around its
 number is refused

---
 crates/sip-core/src/tel_uri.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 3705787..ce1c632 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -346,6 +346,12 @@ impl TelUri {
     /// assert_eq!(uri.phone_context().unwrap(), "example.com");
     /// ```
     pub fn parse(input: &str) -> Result<Self, TelUriError> {
+        if input.chars().any(|c| c.is_control()) {
+            return Err(TelUriError::InvalidFormat(
+                "contains control characters".to_string(),
+            ));
+        }
+
         let raw = SmolStr::new(input);
 
         // Must start with "tel:" (schemes are case-insensitive)
-- 
2.43.0


From f9c84d5bceef39d2cc01b7ae97a2ead696818511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 41/54] fix: tel URI parameter names are case-insensitive, so a
 URI has one phone-context

---
 crates/sip-core/src/tel_uri.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index ce1c632..8397685 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -385,8 +385,7 @@ impl TelUri {
         };
 
         // Parse parameters
-        let mut parameters = BTreeMap::new();
-        let mut phone_context = None;
+        let mut parameters: BTreeMap<SmolStr, Option<SmolStr>> = BTreeMap::new();
 
         for param in parts {
             if parameters.len() >= MAX_PARAMETERS {
@@ -408,22 +407,27 @@ impl TelUri {
                 validate_parameter_name(key)?;
                 validate_parameter_value(value)?;
 
-                let key_smol = SmolStr::new(key);
+                let key_smol = SmolStr::new(key.to_ascii_lowercase());
                 let value_smol = SmolStr::new(value);
 
                 // Special handling for phone-context
                 if key.eq_ignore_ascii_case("phone-context") {
                     validate_phone_context(value)?;
-                    phone_context = Some(value_smol.clone());
                 }
 
                 parameters.insert(key_smol, Some(value_smol));
             } else {
                 validate_parameter_name(param)?;
-                parameters.insert(SmolStr::new(param), None);
+                parameters.insert(SmolStr::new(param.to_ascii_lowercase()), None);
             }
         }
 
+        // The phone-context is the one listed among the parameters
+        let phone_context = match parameters.get("phone-context") {
+            Some(Some(value)) => Some(value.clone()),
+            _ => None,
+        };
+
         // Validate: local numbers MUST have phone-context
         if !is_global && phone_context.is_none() {
             // RFC 3966 §5.1.4: Local numbers require phone-context
@@ -480,7 +484,7 @@ impl TelUri {
         key: impl Into<SmolStr>,
         value: Option<impl Into<SmolStr>>,
     ) -> Result<Self, TelUriError> {
-        let key = key.into();
+        let key = SmolStr::new(key.into().to_ascii_lowercase());
         let key_str = key.as_str();
         let exists = self.parameters.contains_key(&key);
         if !exists && self.parameters.len() >= MAX_PARAMETERS {
@@ -531,6 +535,13 @@ impl TelUri {
         let context = context.into();
         validate_phone_context(&context)?;
 
+        let exists = self.parameters.contains_key("phone-context");
+        if !exists && self.parameters.len() >= MAX_PARAMETERS {
+            return Err(TelUriError::TooManyParameters {
+                max: MAX_PARAMETERS,
+            });
+        }
+
         self.phone_context = Some(context.clone());
         self.parameters
             .insert(SmolStr::new("phone-context"), Some(context));
-- 
2.43.0


From 5ad8723973bfb06a9b2b2e5a161898f7b6d75586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 42/54] fix: a tel URI parameter value may not contain the
 parameter separator

---
 crates/sip-core/src/tel_uri.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 8397685..6bc46db 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -264,10 +264,13 @@ fn validate_parameter_value(value: &str) -> Result<(), TelUriError> {
         });
     }
 
-    // Check for control characters and whitespace
-    if value.chars().any(|c| c.is_control() || c.is_whitespace()) {
+    // Check for control characters, whitespace, and the parameter separator
+    if value
+        .chars()
+        .any(|c| c.is_control() || c.is_whitespace() || c == ';')
+    {
         return Err(TelUriError::InvalidParameter(
-            "parameter value contains control characters".to_string(),
+            "parameter value contains invalid characters".to_string(),
         ));
     }
 
-- 
2.43.0


From d151c2717e2841953e14a8646f1a02d76930dca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 43/54] fix: TelUri::new normalises its number as parsing does

---
 crates/sip-core/src/tel_uri.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 6bc46db..3263986 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -321,6 +321,12 @@ impl TelUri {
             ));
         }
 
+        // Same form as a parsed number: no surrounding blanks, no visual separators if global
+        let number = if is_global {
+            normalize_global_number(&number)
+        } else {
+            SmolStr::new(number.trim())
+        };
         let raw = SmolStr::new(format!("tel:{}", number));
 
         Ok(Self {
-- 
2.43.0


From c12176cdd2d08d55122d021c3c4201fc8a54aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:42 +0000
Subject: [PATCH 44/54] fix: a phone-context is read up to its own length limit

---
 crates/sip-core/src/tel_uri.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 3263986..01d32a9 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -414,16 +414,17 @@ impl TelUri {
 
             if let Some((key, value)) = param.split_once('=') {
                 validate_parameter_name(key)?;
-                validate_parameter_value(value)?;
 
-                let key_smol = SmolStr::new(key.to_ascii_lowercase());
-                let value_smol = SmolStr::new(value);
-
-                // Special handling for phone-context
+                // A phone-context has its own form and length limit
                 if key.eq_ignore_ascii_case("phone-context") {
                     validate_phone_context(value)?;
+                } else {
+                    validate_parameter_value(value)?;
                 }
 
+                let key_smol = SmolStr::new(key.to_ascii_lowercase());
+                let value_smol = SmolStr::new(value);
+
                 parameters.insert(key_smol, Some(value_smol));
             } else {
                 validate_parameter_name(param)?;
-- 
2.43.0


From 081eb05a3839f58fffb5ef68ed2d1bb59e50038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 45/54] fix: sdp answer lists only payload types the offer's
 media line lists, in its order

---
 crates/sip-core/src/sdp_offer_answer.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 2327442..c640486 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -539,11 +539,13 @@ impl OfferAnswerEngine {
         // Find common codecs
         let mut common_codecs: Vec<(String, &RtpMap)> = Vec::new();
 
-        for (payload, rtpmap) in &offer_rtpmaps {
-            for codec in supported_codecs {
-                if codec.matches(rtpmap) {
-                    common_codecs.push((payload.clone(), rtpmap));
-                    break;
+        for payload in offer_media.fmt() {
+            if let Some(rtpmap) = offer_rtpmaps.get(payload) {
+                for codec in supported_codecs {
+                    if codec.matches(rtpmap) {
+                        common_codecs.push((payload.clone(), rtpmap));
+                        break;
+                    }
                 }
             }
         }
-- 
2.43.0


From d2dbed4034b761322fd9294d40d3aa9e75e0c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 46/54] fix: sdp answer keeps sections offered with port zero
 rejected, ports no longer overflow

---
 crates/sip-core/src/sdp_offer_answer.rs | 32 +++++++++++++------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index c640486..45c4b15 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -489,25 +489,27 @@ impl OfferAnswerEngine {
         });
 
         // Process each media stream in order - use getter
-        let mut current_port = options.base_port();
+        let mut next_port = Some(options.base_port());
 
         for (idx, offer_media) in offer.media().iter().enumerate() {
-            // Check if this media should be rejected - use getter
-            let should_reject = options.reject_media().contains(&idx);
-
-            let answer_media = if should_reject {
-                self.create_rejected_media(offer_media)
-            } else {
-                match self.negotiate_media(offer_media, &options, current_port, idx) {
-                    Ok(media) => {
-                        current_port += 2; // RTP + RTCP
-                        media
-                    }
-                    Err(_) => {
-                        // No common codecs - reject
-                        self.create_rejected_media(offer_media)
+            // Check if this media should be rejected - use getter. A section
+            // offered with port zero stays rejected (RFC 3264 Section 6).
+            let should_reject = options.reject_media().contains(&idx) || offer_media.port() == 0;
+
+            let answer_media = match next_port {
+                Some(port) if !should_reject => {
+                    match self.negotiate_media(offer_media, &options, port, idx) {
+                        Ok(media) => {
+                            next_port = port.checked_add(2); // RTP + RTCP
+                            media
+                        }
+                        Err(_) => {
+                            // No common codecs - reject
+                            self.create_rejected_media(offer_media)
+                        }
                     }
                 }
+                _ => self.create_rejected_media(offer_media),
             };
 
             answer.media.push(answer_media);
-- 
2.43.0


From b8a79090a97bc1e99242a5312636a9049d0fffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 47/54] fix: sdp answer direction honours the offer's
 session-level direction, override stays within the offer

---
 crates/sip-core/src/sdp_offer_answer.rs | 34 ++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 45c4b15..fc17fa3 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -498,7 +498,7 @@ impl OfferAnswerEngine {
 
             let answer_media = match next_port {
                 Some(port) if !should_reject => {
-                    match self.negotiate_media(offer_media, &options, port, idx) {
+                    match self.negotiate_media(offer, offer_media, &options, port, idx) {
                         Ok(media) => {
                             next_port = port.checked_add(2); // RTP + RTCP
                             media
@@ -521,6 +521,7 @@ impl OfferAnswerEngine {
     /// Negotiates a single media stream.
     fn negotiate_media(
         &self,
+        offer: &SdpSession,
         offer_media: &MediaDescription,
         options: &AnswerOptions,
         port: u16,
@@ -579,11 +580,16 @@ impl OfferAnswerEngine {
         }
 
         // Negotiate direction - use getter
-        let offer_direction = self.get_media_direction(offer_media);
+        // (a session-level direction applies to every section without its own)
+        let offer_direction = match self.find_media_direction(offer_media) {
+            Some(direction) => direction,
+            None => offer.find_direction(None).unwrap_or(Direction::SendRecv),
+        };
+        let allowed_direction = self.negotiate_direction(offer_direction);
         let answer_direction = if let Some(override_dir) = options.direction_override() {
-            override_dir
+            self.restrict_direction(override_dir, allowed_direction)
         } else {
-            self.negotiate_direction(offer_direction)
+            allowed_direction
         };
 
         attributes.push(Attribute {
@@ -717,14 +723,20 @@ impl OfferAnswerEngine {
 
     /// Gets direction attribute from media description.
     fn get_media_direction(&self, media: &MediaDescription) -> Direction {
+        self.find_media_direction(media)
+            .unwrap_or(Direction::SendRecv)
+    }
+
+    /// Finds the direction attribute of a media section, if it has one.
+    fn find_media_direction(&self, media: &MediaDescription) -> Option<Direction> {
         for attr in media.attributes() {
             if attr.value.is_none() {
                 if let Some(dir) = Direction::parse(&attr.name) {
-                    return dir;
+                    return Some(dir);
                 }
             }
         }
-        Direction::SendRecv
+        None
     }
 
     /// Negotiates direction attribute per RFC 3264 Table 1.
@@ -737,6 +749,16 @@ impl OfferAnswerEngine {
         }
     }
 
+    /// Limits a wanted direction to what the offer allows.
+    fn restrict_direction(&self, wanted: Direction, allowed: Direction) -> Direction {
+        match (wanted, allowed) {
+            (Direction::SendRecv, other) | (other, Direction::SendRecv) => other,
+            (Direction::SendOnly, Direction::SendOnly) => Direction::SendOnly,
+            (Direction::RecvOnly, Direction::RecvOnly) => Direction::RecvOnly,
+            _ => Direction::Inactive,
+        }
+    }
+
     /// Creates a hold offer from an active session.
     pub fn create_hold_offer(&self, session: &SdpSession) -> SdpSession {
         let mut hold_session = session.clone();
-- 
2.43.0


From bfbd64b0d7350abcd07caaa2f3b5f07a3ce479aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 48/54] fix: sip-sdp answer keeps sections offered with port
 zero rejected

---
 crates/sip-sdp/src/negotiate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 9f225cd..b11690b 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -192,7 +192,9 @@ pub fn negotiate_answer(
     // already-accepted type are rejected.
     let mut accepted_types: Vec<MediaType> = Vec::new();
     for offer_media in &offer.media {
-        if accepted_types.contains(&offer_media.media_type) {
+        // A section offered with port zero is rejected (or disabled) by the
+        // offerer and stays so in the answer (RFC 3264 §6, §8.2).
+        if offer_media.port == 0 || accepted_types.contains(&offer_media.media_type) {
             let rejected = create_rejected_media(offer_media)?;
             answer_builder = answer_builder
                 .media(rejected)
-- 
2.43.0


From 015c7a8ba3b8eb8d6912a0514482746797f7fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 49/54] fix: sip-sdp answer honours session-level directions

---
 crates/sip-sdp/src/negotiate.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index b11690b..a6e106b 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -201,7 +201,7 @@ pub fn negotiate_answer(
                 .map_err(|e| NegotiationError::InvalidSdp(e.to_string()))?;
             continue;
         }
-        match negotiate_media(offer_media, local_capabilities) {
+        match negotiate_media(offer, offer_media, local_capabilities) {
             Ok(answer_media) => {
                 accepted_types.push(offer_media.media_type.clone());
                 answer_builder = answer_builder
@@ -225,6 +225,7 @@ pub fn negotiate_answer(
 
 /// Negotiate a single media stream
 fn negotiate_media(
+    offer: &SessionDescription,
     offer_media: &MediaDescription,
     local_capabilities: &SessionDescription,
 ) -> Result<MediaDescription, NegotiationError> {
@@ -251,8 +252,13 @@ fn negotiate_media(
     }
 
     // Get directions
-    let offer_dir = extract_direction(&offer_media.attributes).unwrap_or(Direction::SendRecv);
-    let local_dir = extract_direction(&local_media.attributes).unwrap_or(Direction::SendRecv);
+    // (a session-level direction applies to every section without its own)
+    let offer_dir = extract_direction(&offer_media.attributes)
+        .or(extract_direction(&offer.attributes))
+        .unwrap_or(Direction::SendRecv);
+    let local_dir = extract_direction(&local_media.attributes)
+        .or(extract_direction(&local_capabilities.attributes))
+        .unwrap_or(Direction::SendRecv);
 
     // Negotiate direction from answerer's perspective
     let answer_dir = offer_dir.reverse().negotiate(&local_dir)?;
-- 
2.43.0


From e81c7d6fc3fa764ee774e5d5f14658d74e0c122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 50/54] fix: sip-sdp negotiate_answer does not panic on offers
 beyond the builder's limits

---
 crates/sip-sdp/src/profiles.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/sip-sdp/src/profiles.rs b/crates/sip-sdp/src/profiles.rs
index 183da2c..3e215d5 100644
--- a/crates/sip-sdp/src/profiles.rs
+++ b/crates/sip-sdp/src/profiles.rs
@@ -129,7 +129,7 @@ impl MediaProfileBuilder {
         builder = builder.media(audio).expect("valid media");
 
         if self.enable_video {
-            let vport = video_port.unwrap_or(audio_port + 2);
+            let vport = video_port.unwrap_or(audio_port.saturating_add(2));
             let mut video = MediaDescription::video(vport)
                 .with_direction(self.direction)
                 .expect("valid direction");
@@ -338,7 +338,7 @@ pub fn negotiate_answer(
                         None => continue,
                     };
                     if desired_audio.contains(&pt) {
-                        if let Some(rtp) = m.rtpmaps.get(&pt) {
+                        if let Some(rtp) = usable_rtpmap(m, pt, &builder.audio_codecs) {
                             builder = builder.add_audio_codec(
                                 pt,
                                 rtp.encoding_name.to_string(),
@@ -361,7 +361,7 @@ pub fn negotiate_answer(
                             None => continue,
                         };
                         if desired_video.contains(&pt) {
-                            if let Some(rtp) = m.rtpmaps.get(&pt) {
+                            if let Some(rtp) = usable_rtpmap(m, pt, &builder.video_codecs) {
                                 builder = builder.add_video_codec(
                                     pt,
                                     rtp.encoding_name.to_string(),
@@ -378,6 +378,27 @@ pub fn negotiate_answer(
     builder.build(username, addr, audio_port, video_port)
 }
 
+/// Most codecs taken into one answered section (each takes an attribute, and
+/// a section holds `MAX_ATTRIBUTES_PER_DESCRIPTION` of them).
+const MAX_ANSWERED_CODECS: usize = 40;
+
+/// The offered mapping of a payload type, if the answer can carry it: what a
+/// peer offers is not bound by the limits of the builder.
+fn usable_rtpmap<'a>(
+    media: &'a MediaDescription,
+    pt: u8,
+    taken: &[(u8, String, u32)],
+) -> Option<&'a RtpMap> {
+    if taken.len() >= MAX_ANSWERED_CODECS || taken.iter().any(|c| c.0 == pt) {
+        return None;
+    }
+    let rtp = media.rtpmaps.get(&pt)?;
+    let usable = validate_field(&rtp.encoding_name, "encoding_name", MAX_ENCODING_NAME_LENGTH)
+        .is_ok()
+        && validate_clock_rate(rtp.clock_rate).is_ok();
+    usable.then_some(rtp)
+}
+
 fn parse_payload_type(fmt: &SmolStr) -> Option<u8> {
     let value = fmt.as_str().parse::<u16>().ok()?;
     if value > 127 {
-- 
2.43.0


From 00dc62606efbe69bcfdccc4fbfa8f5f6bc0cceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 51/54] fix: sdp o= and b= fields do not swallow line breaks

---
 crates/sip-sdp/src/parse.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index 52ec09f..04b4b1b 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -196,9 +196,9 @@ fn parse_o_line(input: &str) -> IResult<&str, Origin> {
         tag("o="),
         map(
             tuple((
-                terminated(take_till(|c| c == ' '), space1),
-                terminated(take_till(|c| c == ' '), space1),
-                terminated(take_till(|c| c == ' '), space1),
+                terminated(take_till(|c| c == ' ' || c == '\r' || c == '\n'), space1),
+                terminated(take_till(|c| c == ' ' || c == '\r' || c == '\n'), space1),
+                terminated(take_till(|c| c == ' ' || c == '\r' || c == '\n'), space1),
                 terminated(parse_nettype, space1),
                 terminated(parse_addrtype, space1),
                 take_till(|c| c == '\r' || c == '\n'),
@@ -290,7 +290,7 @@ fn parse_b_line(input: &str) -> IResult<&str, Bandwidth> {
         tag("b="),
         map(
             tuple((
-                take_till(|c| c == ':'),
+                take_till(|c| c == ':' || c == '\r' || c == '\n'),
                 preceded(char(':'), map_res(digit1, |s: &str| s.parse::<u32>())),
             )),
             |(bw_type, bandwidth)| Bandwidth {
-- 
2.43.0


From 4a6f762a2ab229b9af0220a068efdc95bfd2f525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 52/54] fix: sdp media protocols are compared as whole tokens

---
 crates/sip-sdp/src/parse.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index 04b4b1b..3f33385 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -482,23 +482,24 @@ fn parse_port(input: &str) -> IResult<&str, (u16, Option<u16>)> {
 
 /// Parse protocol: RTP/AVP, RTP/SAVP, RTP/SAVPF, UDP/TLS/RTP/SAVPF, TCP/TLS/RTP/SAVPF, UDP, TCP, etc.
 fn parse_protocol(input: &str) -> IResult<&str, Protocol> {
-    alt((
-        // WebRTC protocols (longest first to avoid partial matches)
-        map(tag("UDP/TLS/RTP/SAVPF"), |_| Protocol::UdpTlsRtpSavpf),
-        map(tag("TCP/TLS/RTP/SAVPF"), |_| Protocol::TcpTlsRtpSavpf),
-        map(tag("RTP/SAVPF"), |_| Protocol::RtpSavpf),
-        // Traditional RTP protocols
-        map(tag("RTP/SAVP"), |_| Protocol::RtpSavp),
-        map(tag("RTP/AVP"), |_| Protocol::RtpAvp),
-        // Basic protocols
-        map(tag("UDP"), |_| Protocol::Udp),
-        map(tag("TCP"), |_| Protocol::Tcp),
-        // Fallback for unknown protocols
-        map(
-            take_till(|c| c == ' ' || c == '\r' || c == '\n'),
-            |s: &str| Protocol::Other(SmolStr::new(s)),
-        ),
-    ))(input)
+    map(
+        take_till(|c| c == ' ' || c == '\r' || c == '\n'),
+        |name: &str| match name {
+            // WebRTC protocols
+            "UDP/TLS/RTP/SAVPF" => Protocol::UdpTlsRtpSavpf,
+            "TCP/TLS/RTP/SAVPF" => Protocol::TcpTlsRtpSavpf,
+            "RTP/SAVPF" => Protocol::RtpSavpf,
+            // Traditional RTP protocols
+            "RTP/SAVP" => Protocol::RtpSavp,
+            "RTP/AVP" => Protocol::RtpAvp,
+            // Basic protocols
+            "UDP" => Protocol::Udp,
+            "TCP" => Protocol::Tcp,
+            // Fallback for unknown protocols (compared as a whole: `TCP/MSRP`
+            // and `UDPTL` are names of their own)
+            other => Protocol::Other(SmolStr::new(other)),
+        },
+    )(input)
 }
 
 /// Parse network type: IN (Internet)
-- 
2.43.0


From 435916f707ed61c297c02d7908826853c48c2f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:06 +0000
Subject: [PATCH 53/54] fix: sip-core refuses session descriptions whose z=
 lines hold too many time zones in total

---
 crates/sip-core/src/sdp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index fcfbd97..6a111b8 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -1484,7 +1484,12 @@ impl SdpSession {
                 'z' => {
                     let zones = parse_time_zones(line)?;
                     self.time_zones.extend(zones);
-                    // Security: Check time zones collection size (already checked in parse_time_zones)
+                    // Security: Check time zones collection size
+                    validate_collection_size(
+                        &self.time_zones,
+                        "z= time-zones",
+                        MAX_TIME_ZONES,
+                    )?;
                 }
                 'k' => self.encryption_key = Some(parse_encryption_key(line)?),
                 'a' => {
-- 
2.43.0


From ee519aaea35644598b515361abf67e79d78a08da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:27 +0000
Subject: [PATCH 54/54] fix: sip-sdp refuses session descriptions whose z=
 lines together exceed the line length limit

---
 crates/sip-sdp/src/parse.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index 3f33385..ec0d774 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -586,6 +586,17 @@ fn build_session_description(
             SdpLine::TimeZone(z) => {
                 let normalized = normalize_time_zones(z)?;
                 time_zones.extend(normalized);
+                // All time zones are written as one z= line, which has to
+                // stay within the limit for a line to be readable again.
+                let line_length = time_zones.iter().fold(1, |n: usize, z| {
+                    n + z.adjustment_time.len() + z.offset.len() + 2
+                });
+                if line_length > limits.max_line_length {
+                    return Err(ParseError::LimitExceeded(
+                        "line length",
+                        limits.max_line_length,
+                    ));
+                }
             }
             SdpLine::EncryptionKey(key) => {
                 if let Some(ref mut m) = current_media {
-- 
2.43.0

