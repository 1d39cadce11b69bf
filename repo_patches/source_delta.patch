From e397a3d4c461a352ffdfbfbe4e247c92764e9546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 01/16] fix: reply to parser requests with the request id when
 the ledger has syntax errors

---
 rust/src/api/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index 5cacd71..824cdf6 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -215,7 +215,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
@@ -241,7 +241,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
@@ -259,7 +259,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
-- 
2.43.0


From cdfd0ef78e3833a1cce4e434bbaf9f0bd58add89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 02/16] fix: pad from an account that is not open is an error,
 not a panic

---
 rust/src/api/booking/accumulator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 7158802..08bad14 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -661,6 +661,7 @@ impl<'a, 't> Accumulator<'a, 't> {
         ),
         IndexedReport,
     > {
+        self.validate_account(pad.source, element)?;
         let account = self.get_mut_valid_account(pad.acc, element)?;
 
         let unused_pad = account.pad.take();
-- 
2.43.0


From dfd79dedca125cd8e57a598df6ad3d8e1f184b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 03/16] fix: list only postings in the asserted currency for a
 failed balance

---
 rust/src/api/booking/accumulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 08bad14..742d1ee 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -512,7 +512,7 @@ impl<'a, 't> Accumulator<'a, 't> {
         for dct in &booked_directives[balance_window.clone()] {
             if let booked::DirectiveVariant::Transaction(txn) = &dct.variant {
                 for pst in &txn.postings {
-                    if is_nonstrict_subaccount(base_account_name, pst.acc) {
+                    if pst.cur == cur && is_nonstrict_subaccount(base_account_name, pst.acc) {
                         total += pst.units;
                         let description = txn.payee.or(txn.narration);
 
-- 
2.43.0


From ed079d78b7b26056d45e9fbd1406cf9b2cb5e08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 04/16] fix: an account that was closed stays closed after a
 failed reopen

---
 rust/src/api/booking/accumulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 742d1ee..ab2c48c 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -576,12 +576,12 @@ impl<'a, 't> Accumulator<'a, 't> {
                     .related_to(*open_entry.get()));
             }
             Vacant(open_entry) => {
-                open_entry.insert(element);
-
                 // cannot reopen a closed account
                 if let Some(closed) = self.closed_accounts.get(open.acc) {
                     return Err(element.report("account was closed").related_to(*closed));
                 } else {
+                    open_entry.insert(element);
+
                     let mut booking = open
                         .booking
                         .map(|booking| booking.into())
-- 
2.43.0


From 9dc6eb2fbb38fc0f29ca50f1cbe10576ae4a5f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 05/16] fix: report unused pads in order of directive

---
 rust/src/api/booking/accumulator.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index ab2c48c..eba3e4a 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -58,11 +58,14 @@ impl<'a, 't> Accumulator<'a, 't> {
             accounts, warnings, ..
         } = self;
 
-        // check for unused pad directives
-        for account in accounts.values() {
-            if let Some((_, pad)) = &account.pad {
-                errors.push(pad.report("unused, no balance directive"))
-            }
+        // check for unused pad directives, in order of directive
+        let mut unused_pads = accounts
+            .values()
+            .filter_map(|account| account.pad)
+            .collect::<Vec<_>>();
+        unused_pads.sort_by_key(|(idx, _)| *idx);
+        for (_, pad) in unused_pads {
+            errors.push(pad.report("unused, no balance directive"))
         }
 
         if errors.is_empty() {
-- 
2.43.0


From 6592dd6f2466ff2cf696a99d074483df81ae4d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 06/16] fix: accept request ids with escapes and 64-bit
 integers

---
 rust/src/api/json_rpc.rs | 7 ++++---
 rust/src/api/server.rs   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/rust/src/api/json_rpc.rs b/rust/src/api/json_rpc.rs
index 1b0dbfe..66f3788 100644
--- a/rust/src/api/json_rpc.rs
+++ b/rust/src/api/json_rpc.rs
@@ -145,11 +145,12 @@ where
     data: Option<T>,
 }
 
-#[derive(Serialize, Deserialize, Copy, Clone, Debug)]
+#[derive(Serialize, Deserialize, Clone, Debug)]
 #[serde(untagged)]
 pub(crate) enum Id<'a> {
-    String(&'a str),
-    Int(i32),
+    #[serde(borrow)]
+    String(Cow<'a, str>),
+    Int(i64),
     Float(f64),
 }
 
diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index 824cdf6..e48644c 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -416,7 +416,7 @@ where
                 ))
             } else {
                 write_error::<Report, W>(
-                    response.id,
+                    response.id.clone(),
                     ERROR_INTERNAL,
                     Cow::Owned(e.to_string()),
                     None,
-- 
2.43.0


From b59ae91d2e1269972e04b7e9da5133dbb2b9b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 07/16] fix: give the enclosing transaction as context of a
 posting's booking error

---
 clj/src/limabean/adapter/loader.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index 2403984..80a90a3 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -144,7 +144,7 @@
     (cond-> (assoc (select-keys report [:reason :annotation])
               :message (str "invalid " description)
               :span span)
-      context (assoc :context context)
+      context (assoc :contexts [context])
       (:related report) (assoc :related
                           (mapv (resolve-report-related raw-directives)
                             (:related report))))))
-- 
2.43.0


From 3b48f2d4a7cf6ce8224f50596098ff9d4a260a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 08/16] fix: relate plugin errors on modified directives to
 their source

---
 clj/src/limabean/adapter/error.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/error.clj b/clj/src/limabean/adapter/error.clj
index 5af1bfb..3b3999a 100644
--- a/clj/src/limabean/adapter/error.clj
+++ b/clj/src/limabean/adapter/error.clj
@@ -25,7 +25,7 @@
                         (cond-> {:message (:plugin err),
                                  :reason (:message err),
                                  :span (or (:span-p dct) (:span dct))}
-                          (and (:span dct) (:span-p :dct))
+                          (and (:span dct) (:span-p dct))
                             (assoc :related [["source" (:span dct)]])))
                    (:err dct)))
          dct-errors)))
-- 
2.43.0


From 123456d180a757716b975486c535c79f02e63ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 09/16] fix: resolve the spec of booked directives

---
 clj/src/limabean/spec.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/spec.clj b/clj/src/limabean/spec.clj
index 2645447..b70092a 100644
--- a/clj/src/limabean/spec.clj
+++ b/clj/src/limabean/spec.clj
@@ -154,7 +154,7 @@
 (s/def ::booked-dct (s/and ::base-dct (s/multi-spec booked-dct :dct)))
 
 (s/def ::raw-dcts (s/coll-of ::raw-dct))
-(s/def ::booked-dcts (s/coll-of :booked-dct))
+(s/def ::booked-dcts (s/coll-of ::booked-dct))
 
 (defn directive-spec
   "Directive spec for `kind` of directive"
-- 
2.43.0


From 25d2ece92cd48090d2c5bec0b35e58082940d5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 10/16] fix: keep metadata entries whose key is dct or booking

---
 clj/src/limabean/adapter/pod.clj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/adapter/pod.clj b/clj/src/limabean/adapter/pod.clj
index 04623b9..040441b 100644
--- a/clj/src/limabean/adapter/pod.clj
+++ b/clj/src/limabean/adapter/pod.clj
@@ -37,8 +37,8 @@
     (fn [x]
       (cond-> x
         (and (map? x) (string? (:date x))) (update :date jt/local-date)
-        (and (map? x) (contains? x :dct)) (update :dct keyword)
-        (and (map? x) (contains? x :booking)) (update :booking keyword)))
+        (and (map? x) (string? (:dct x))) (update :dct keyword)
+        (and (map? x) (string? (:booking x))) (update :booking keyword)))
     data))
 
 (defn- coerce-arrays
-- 
2.43.0


From 5d9b4689af0d7ae23f8606d643082819d270b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 11/16] fix: report the booking errors of ledgers without raw
 plugins

---
 clj/src/limabean/adapter/loader.clj | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index 80a90a3..dca00f0 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -170,10 +170,15 @@
                     :booked-directives (type/directives resolved-directives))
             (debug/dump-configured?) (dump :booked-directives)
             (seq warnings) (assoc :booked-warnings warnings)))
-        (let [indexed-reports (:indexed-reports err)
-              spanned-reports (resolve-reports-from-raw indexed-reports
-                                                        raw-directives)]
-          (assoc-in m [:error :booking] {:spanned-reports spanned-reports}))))
+        ;; booking the parsed directives fails with spanned reports, booking
+        ;; ours with indexed reports
+        (let [indexed-reports (:indexed-reports err)]
+          (assoc-in m
+            [:error :booking]
+            (if indexed-reports
+              {:spanned-reports (resolve-reports-from-raw indexed-reports
+                                                          raw-directives)}
+              err)))))
     (catch Exception e
       (assoc-in m [:error :booking] {:exception (Throwable->map e)}))))
 
-- 
2.43.0


From d12b7ba0035ad9f3f74cccc46f0b44b57fc02685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 12/16] fix: accept tolerances that are whole numbers

---
 clj/src/limabean/spec.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/spec.clj b/clj/src/limabean/spec.clj
index b70092a..23572a8 100644
--- a/clj/src/limabean/spec.clj
+++ b/clj/src/limabean/spec.clj
@@ -41,7 +41,7 @@
 (s/def ::narration string?)
 
 ;; balance fields
-(s/def ::tolerance decimal?)
+(s/def ::tolerance ::number)
 
 ;; open fields
 (s/def ::currencies (s/coll-of ::cur :kind set?))
-- 
2.43.0


From 2001c7d2dd6bd31a2681140f0d459b5c01bb7b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 13/16] fix: a failing clojure is bad health

---
 rust/src/bin/limabean/health.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rust/src/bin/limabean/health.rs b/rust/src/bin/limabean/health.rs
index a8fc172..e994606 100644
--- a/rust/src/bin/limabean/health.rs
+++ b/rust/src/bin/limabean/health.rs
@@ -36,12 +36,20 @@ fn check_clojure(verbose: bool) {
 }
 
 fn clojure_health() -> Health {
-    match Command::new("clojure")
-        .arg("--version")
-        .output()
-        .map(|op| String::from_utf8_lossy(op.stdout.as_slice()).replace("\n", "; "))
-    {
-        Ok(description) => Health::Good(format!("clojure: {}", description)),
+    match Command::new("clojure").arg("--version").output() {
+        Ok(output) => {
+            if output.status.success() {
+                Health::Good(format!(
+                    "clojure: {}",
+                    String::from_utf8_lossy(output.stdout.as_slice()).replace("\n", "; ")
+                ))
+            } else {
+                Health::Bad(format!(
+                    "clojure: {}",
+                    String::from_utf8_lossy(output.stderr.as_slice()).replace("\n", "; ")
+                ))
+            }
+        }
         Err(e) => Health::Bad(format!("can't find clojure: {}", &e)),
     }
 }
-- 
2.43.0


From 085c20bff765e399df2eb886dc0f1d281f48ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 14/16] fix: say on standard error why the server ends

---
 rust/src/api/server.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index e48644c..558e815 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -107,6 +107,7 @@ impl<'a> Server<'a> {
 
                 Err(e) => {
                     tracing::error!("<- {}", &e);
+                    eprintln!("limabean-pod can't read request: {}", &e);
                     std::process::exit(1);
                 }
             }
-- 
2.43.0


From e53b429b6149e3dc4c097c37320193507ed5e679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 15/16] fix: quote the local root in the deps of the Clojure
 tool

---
 rust/src/bin/limabean/run.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/bin/limabean/run.rs b/rust/src/bin/limabean/run.rs
index 1b5eea9..f16a82b 100644
--- a/rust/src/bin/limabean/run.rs
+++ b/rust/src/bin/limabean/run.rs
@@ -41,7 +41,7 @@ impl Runtime {
         if let Ok(local_root) = std::env::var(LIMABEAN_CLJ_LOCAL_ROOT) {
             Runtime::clojure(format!(
                 r###"{{:local/root "{}"}}{}"###,
-                &local_root,
+                local_root.replace('\\', r"\\").replace('"', r#"\""#),
                 extra_deps.unwrap_or("".to_string())
             ))
         } else if let Ok(uberjar) = std::env::var(LIMABEAN_UBERJAR) {
-- 
2.43.0


From 8237d5c9b15172e4ee8df5f75c89f825fb6bf9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:14 +0000
Subject: [PATCH 16/16] fix: rollup of an empty inventory is empty rather than
 an arity error

---
 clj/src/limabean.clj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean.clj b/clj/src/limabean.clj
index eb10097..86ff65a 100644
--- a/clj/src/limabean.clj
+++ b/clj/src/limabean.clj
@@ -31,7 +31,8 @@
   ```
   "
   [inv]
-  (let [primary-cur (first (apply max-key val (inventory/cur-freq inv)))]
+  (let [cur-freq (inventory/cur-freq inv)
+        primary-cur (when (seq cur-freq) (first (apply max-key val cur-freq)))]
     (rollup/build inv primary-cur)))
 
 (defn balances
-- 
2.43.0

