From 658f1dc9dd9256eed27cbe255d29e874e26f97a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 01/42] fix: refuse NaN sigmas, noise weights and bin bounds

---
 privcount/counter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/privcount/counter.py b/privcount/counter.py
index c6fd576..ddc0e3f 100644
--- a/privcount/counter.py
+++ b/privcount/counter.py
@@ -126,7 +126,8 @@ def check_noise_weight_value(noise_weight_value, description="value"):
     Returns True if the noise weight value is valid.
     Logs a specific warning using description, and returns False if it is not.
     '''
-    if noise_weight_value < 0.0:
+    # NaN is not positive either
+    if not noise_weight_value >= 0.0:
         logging.warning("Noise weight {} must be positive, was {}".format(
                 description, noise_weight_value))
         return False
@@ -6460,8 +6461,8 @@ def check_bins_config(bins, allow_unknown_counters=False):
             # c is optional, and is ignored by this code
             l = bin[0]
             u = bin[1]
-            # check for inverted bounds
-            if l >= u:
+            # check for inverted bounds (and NaN bounds)
+            if not l < u:
                 logging.warning("bin {} in counter {} will never count any values, because its lower bound is greater than or equal to its upper bound"
                                 .format(bin, key))
                 return False
@@ -6498,7 +6499,8 @@ def check_sigmas_config(sigmas, allow_unknown_counters=False):
             return False
     # sort names alphabetically, so the logs are in a sensible order
     for key in sorted(sigmas.keys()):
-        if sigmas[key]['sigma'] < 0.0:
+        # NaN is not a valid sigma either
+        if not sigmas[key]['sigma'] >= 0.0:
             logging.warning("invalid sigma for counter {}: less than zero".format(key))
             return False
     return True
-- 
2.43.0


From abcb9a0b5ab24f5a0e5f37257a03b6f2bc6ca6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 02/42] fix: look for a domain suffix match when there is no
 exact match

---
 privcount/data_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 13e8b9b..a913790 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1477,7 +1477,8 @@ class Aggregator(ReconnectingClientFactory):
                 # exact matches match the first bin
                 # suffix matches match an arbitrary bin (which is ok, because
                 # the suffix lists should be disjoint)
-                if self.needs_domain_exact_match and domain_exact_match_bin is not None:
+                # (no exact match is inf, see _exact_match_bin)
+                if self.needs_domain_exact_match and domain_exact_match_bin != float('inf'):
                     domain_suffix_match_bin = domain_exact_match_bin
                 else:
                     # check for a suffix match
-- 
2.43.0


From 856dbe31ba988d72869555973a67225868e6bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 03/42] fix: check circuit flags before resolving conflicts
 between them

A malformed IsExitFlag, IsDirFlag, IsHSDirFlag, IsIntroFlag or IsRendFlag
raised AssertionError instead of being ignored with a warning.
---
 privcount/data_collector.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index a913790..e47771b 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1950,11 +1950,6 @@ class Aggregator(ReconnectingClientFactory):
         if prefix is None:
             prefix = ""
 
-        # Work around some unexpected flags from Tor
-        Aggregator.make_circuit_common_fields_valid(fields, event_desc,
-                                                    is_mandatory=is_mandatory,
-                                                    prefix=prefix)
-
         # Validate the potentially mandatory fields
 
         if not is_float_valid("EventTimestamp",
@@ -2087,6 +2082,12 @@ class Aggregator(ReconnectingClientFactory):
                             min_value=1, max_value=None):
             return False
 
+        # Work around some unexpected flags from Tor
+        # (this needs valid flags: it asserts on malformed values)
+        Aggregator.make_circuit_common_fields_valid(fields, event_desc,
+                                                    is_mandatory=is_mandatory,
+                                                    prefix=prefix)
+
         # if everything passed, this much is ok
         return True
 
-- 
2.43.0


From 4d9795dcf13e440e321dec0c273f1ac598474f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 04/42] fix: ignore events with NaN or infinite timestamps

NaN passed every range check and infinite timestamps gave NaN lifetimes,
which raised AssertionError when the lifetime histograms were incremented.
---
 privcount/tagged_event.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/privcount/tagged_event.py b/privcount/tagged_event.py
index e6213b3..379433c 100644
--- a/privcount/tagged_event.py
+++ b/privcount/tagged_event.py
@@ -7,6 +7,7 @@ See LICENSE for licensing information
 '''
 
 import logging
+import math
 
 from privcount.config import validate_ip_address
 from privcount.log import summarise_string
@@ -249,6 +250,12 @@ def is_float_valid(field_name, fields, event_desc,
                         .format(field_name, fields[field_name], e,
                                 event_desc))
         return False
+    # comparisons with NaN are always false, and differences of infinities are
+    # NaN
+    if math.isnan(field_value) or math.isinf(field_value):
+        logging.warning("Ignored {} '{}', must be finite {}"
+                        .format(field_name, fields[field_name], event_desc))
+        return False
     if min_value is not None and field_value < min_value:
         logging.warning("Ignored {} '{}', must be at least {} {}"
                         .format(field_name, field_value, min_value,
-- 
2.43.0


From c9af8e7c70db1471f9e848b79b29c7ee1af00279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 05/42] fix: count circuits by both activity and status

The format string dropped the counter suffix and put the status in its place,
so the *{Active,Inactive}{Success,Failure}Circuit* counters stayed at zero.
---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index e47771b..8d096d2 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2537,7 +2537,7 @@ class Aggregator(ReconnectingClientFactory):
                                            inc=inc)
 
             # Prefix Active/Inactive Failure/Success Circuit Suffix
-            self.secure_counters.increment('{}{}Circuit{}'
+            self.secure_counters.increment('{}{}{}Circuit{}'
                                            .format(counter_prefix, activity, status, counter_suffix),
                                            bin=bin,
                                            inc=inc)
-- 
2.43.0


From 4bd4b0c154ff86c84b8a7e1c81187f44d8dd4349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 06/42] fix: require a valid client HMAC before accepting
 HANDSHAKE4

---
 privcount/protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 6adb4bb..b21eaa3 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -936,7 +936,8 @@ class PrivCountServerProtocol(PrivCountProtocol):
                                        PrivCountProtocol.HANDSHAKE3))
                 self.handshake_failed()
         elif event_type == PrivCountProtocol.HANDSHAKE4:
-            if self.handshake4_verify(event_line):
+            # the client must have sent a valid HMAC before it can succeed
+            if self.client_cookie and self.handshake4_verify(event_line):
                 self.handshake_succeeded()
             else:
                 self.handshake_failed()
-- 
2.43.0


From 31b05363fe9381d73eefbf97c3e5e791e304d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:45 +0000
Subject: [PATCH 07/42] fix: refuse control cookie and password files that are
 too short

---
 privcount/protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index b21eaa3..6e43fdb 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1476,6 +1476,7 @@ class TorControlProtocol(object):
                                 .format(secret_file,
                                         len(secret_string),
                                         min_len))
+                return None
             if len(secret_string) > max_len:
                 logging.warning("Authentication failed, file '{}' was wrong length {}, wanted at most {}"
                                 .format(secret_file,
-- 
2.43.0


From 17f1d2b815c60feb4942f16de02b64bd3843f9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:45 +0000
Subject: [PATCH 08/42] fix: quote controller strings that contain quotes or
 backslashes

---
 privcount/protocol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 6e43fdb..824b462 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1205,9 +1205,9 @@ class TorControlProtocol(object):
             # quoted strings escape \ and " with \, then quote with "
             # the order of these replacements is important: they ensure that
             # " becomes \" rather than \\"
-            cont_str = cont_str.replace("\\", "\\\\")
-            cont_str = cont_str.replace("\"", "\\\"")
-            encoded = "\"" + cont_str + "\""
+            escaped = cont_str.replace("\\", "\\\\")
+            escaped = escaped.replace("\"", "\\\"")
+            encoded = "\"" + escaped + "\""
         # sanity check
         assert TorControlProtocol.decodeControllerString(encoded) == cont_str
         return encoded
-- 
2.43.0


From 9c007643d03103bfdb9479febf9650b57af0be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:02 +0000
Subject: [PATCH 09/42] fix: check that EnablePrivCount is on when collection
 starts

---
 privcount/protocol.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 824b462..e8198cd 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1984,17 +1984,6 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
                                  .format(transport_info(self.transport)))
                 self.quit()
                 return
-            # Check PrivCount is on
-            elif line.startswith("250 EnablePrivCount="):
-                _, _, privcount_enabled = line.partition("EnablePrivCount=")
-                if privcount_enabled != "1":
-                    logging.warning("Connection with {} failed: EnablePrivCount is {}"
-                                .format(transport_info(self.transport),
-                                        privcount_enabled))
-                    self.quit()
-                    return
-                else:
-                    logging.info("Confirmed that EnablePrivCount is 1")
             # It's a relay, and it's just told us its Nickname
             elif line.startswith("250 Nickname="):
                 _, _, nickname = line.partition("Nickname=")
@@ -2103,6 +2092,18 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
                 return
             else:
                 self.handleUnexpectedLine(line)
+        # Check PrivCount is on: we ask when we start processing events
+        elif (self.state == 'processing' and
+              line.startswith("250 EnablePrivCount=")):
+            _, _, privcount_enabled = line.partition("EnablePrivCount=")
+            if privcount_enabled != "1":
+                logging.warning("Connection with {} failed: EnablePrivCount is {}"
+                                .format(transport_info(self.transport),
+                                        privcount_enabled))
+                self.quit()
+                return
+            else:
+                logging.info("Confirmed that EnablePrivCount is 1")
         # consensus processing: waiting or processing states
         # handle other events interspersed between these lines
         elif line.startswith("250-ns/id/") or line.startswith('552 Unrecognized key "ns/id/'):
-- 
2.43.0


From a763b99746c8be24eba033422c2e8652f5d001b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:58 +0000
Subject: [PATCH 10/42] fix: answer requests for unknown events in the control
 port stub

---
 privcount/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index e8198cd..d1920d8 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -2486,7 +2486,7 @@ class TorControlServerProtocol(LineOnlyReceiver, TorControlProtocol):
                     # this line displays the event name uppercased
                     # that's a minor, irrelevant protocol difference
                     self.sendLine('552 Unrecognized event "{}"'
-                                  .format(unknown_events[0]))
+                                  .format(sorted(unknown_events)[0]))
                     self.factory.stop_injecting()
             elif parts[0] == "GETINFO":
                 # the correct response to an empty GETINFO is an empty OK
-- 
2.43.0


From 99803333f823f21c039317af97d4fd4ba7939bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 11/42] fix: process match lists again when their files are
 removed or reordered

---
 privcount/tally_server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 029f927..d491145 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -434,6 +434,9 @@ class TallyServer(ServerFactory, PrivCountServer):
                 new_config[files_key][i] = file_path
                 if has_list_changed:
                     has_any_previous_list_changed = True
+            # the processed lists depend on the number and order of the files
+            if new_config[files_key] != old_match_files:
+                has_any_previous_list_changed = True
             if not has_any_previous_list_changed:
                 # skip processing the lists into new_processed_config,
                 # because they have not changed
-- 
2.43.0


From 798f963f5e130a18cd5ec4fb920c0cfbb650c076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:36 +0000
Subject: [PATCH 12/42] fix: leave the sanity check counter out of the noise
 allocation

---
 privcount/statistics_noise.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/privcount/statistics_noise.py b/privcount/statistics_noise.py
index efaebed..7c47a76 100644
--- a/privcount/statistics_noise.py
+++ b/privcount/statistics_noise.py
@@ -317,6 +317,10 @@ def get_noise_allocation(noise_parameters,
     stats_parameters = {}
     zero_sigmas = []
     for stat in counters:
+        # the sanity check counter is added after the noise is allocated
+        # (a zero value would make the sigmas of every counter zero)
+        if stat == sanity_check and len(counters) > 1:
+            continue
         sensitivity = counters[stat]['sensitivity']
         estimated_value = counters[stat]['estimated_value']
         if is_circuit_sample_counter(stat):
@@ -351,7 +355,7 @@ def get_noise_allocation(noise_parameters,
                                )
     # update the structure with the results
     noise['sigma_ratio'] = sigma_ratio
-    for stat in counters:
+    for stat in stats_parameters:
         counters[stat]['epsilon'] = epsilons[stat]
         counters[stat]['sigma'] = sigmas[stat]
         noise_ratio = get_expected_noise_ratio(
-- 
2.43.0


From 5480595a6d92e86f3fa04cdd75dab87943b36681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:36 +0000
Subject: [PATCH 13/42] fix: use the sampled circuit count in the expected
 noise ratio

---
 privcount/statistics_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/statistics_noise.py b/privcount/statistics_noise.py
index 7c47a76..8704f2d 100644
--- a/privcount/statistics_noise.py
+++ b/privcount/statistics_noise.py
@@ -361,7 +361,7 @@ def get_noise_allocation(noise_parameters,
         noise_ratio = get_expected_noise_ratio(
             excess_noise_ratio,
             counters[stat]['sigma'],
-            counters[stat]['estimated_value'])
+            stats_parameters[stat][1])
         counters[stat]['expected_noise_ratio'] = noise_ratio
     if sanity_check is not None:
         counters[sanity_check] = get_sanity_check_counter()
-- 
2.43.0


From 9206eb7634efb94ccada99d66e59105510a95dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:28 +0000
Subject: [PATCH 14/42] fix: allocate noise when every counter has the same
 noise ratio

---
 privcount/statistics_noise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/privcount/statistics_noise.py b/privcount/statistics_noise.py
index 8704f2d..34a4a17 100644
--- a/privcount/statistics_noise.py
+++ b/privcount/statistics_noise.py
@@ -217,6 +217,9 @@ def get_opt_privacy_allocation(epsilon, delta, stats_parameters,
             min_sigma_ratio = ratio
         if (max_sigma_ratio is None) or (ratio > max_sigma_ratio):
             max_sigma_ratio = ratio
+    # the epsilons consumed at the highest ratio are calculated inexactly, and
+    # can add up to slightly more than epsilon
+    max_sigma_ratio *= 1.0 + sigma_ratio_tol
     # get optimal sigma ratio
     opt_sigma_ratio = interval_boolean_binary_search(\
         lambda x: sum((get_epsilon_consumed(stats_parameters, excess_noise_ratio, x, delta,
-- 
2.43.0


From 84bbc9c29fca2930c13214a264c9fb6692c32e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 15/42] fix: refuse traffic models with missing keys or no
 start states

---
 privcount/traffic_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index 7e36aa5..52a0391 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -58,8 +58,8 @@ def __check_model_common_start(model_config, model_type_str):
                 valid = False
             start_prob_sum += float(model_config['start_probability'][state])
         if not float_value_is_close(start_prob_sum, 1.0):
-            logging.warning("{} model config start probability sum '{}' does not equal 1.0 for state '{}'"
-                .format(model_type_str, start_prob_sum, state))
+            logging.warning("{} model config start probability sum '{}' does not equal 1.0"
+                .format(model_type_str, start_prob_sum))
             valid = False
     return valid
 
@@ -130,8 +130,9 @@ def __check_stream_model_config(model_config):
 
     stream_model_valid = True
 
+    # the remaining checks need these keys
     if not __check_model_common_keys(model_config, "Stream"):
-        stream_model_valid = False
+        return False
 
     # packet model has its own observation types
     if 'observation_space' in model_config:
@@ -164,8 +165,9 @@ def __check_packet_model_config(model_config):
 
     packet_model_valid = True
 
+    # the remaining checks need these keys
     if not __check_model_common_keys(model_config, "Packet"):
-        packet_model_valid = False
+        return False
 
     # packet model has its own observation types
     if 'observation_space' in model_config:
-- 
2.43.0


From 6a619d6acfbdc4d121c504242a4e41f7b2946faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 16/42] fix: use the circuit count label for circuit traffic
 models

---
 privcount/traffic_model.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index 52a0391..44dd7cf 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -250,12 +250,12 @@ class TrafficModel(object):
         self.packet_hmm = None
         if 'packet_model' in model_config:
             # the packet model counters are counted on stream end events
-            self.packet_hmm = HiddenMarkovModel(model_config['packet_model'], "ExitStreamTrafficModel")
+            self.packet_hmm = HiddenMarkovModel(model_config['packet_model'], "ExitStreamTrafficModel", "StreamCount")
 
         self.stream_hmm = None
         if 'stream_model' in model_config:
             # the stream model counters are counted on circuit end events
-            self.stream_hmm = HiddenMarkovModel(model_config['stream_model'], "ExitCircuitTrafficModel")
+            self.stream_hmm = HiddenMarkovModel(model_config['stream_model'], "ExitCircuitTrafficModel", "CircuitCount")
 
     def register_counters(self):
         if self.packet_hmm != None:
@@ -423,7 +423,7 @@ class HiddenMarkovModel(object):
     A private class that represents a hidden markov model (HMM).
     '''
 
-    def __init__(self, model_config, counter_prefix_str):
+    def __init__(self, model_config, counter_prefix_str, path_count_str):
         '''
         Initialize the model with a set of states, probabilities for starting in each of those
         states, probabilities for transitioning between those states, and proababilities of emitting
@@ -439,6 +439,7 @@ class HiddenMarkovModel(object):
         self.trans_p = model_config['transition_probability']
         self.emit_p = model_config['emission_probability']
         self.prefix = counter_prefix_str
+        self.path_count_str = path_count_str
 
     def get_dynamic_counter_template_label_mapping(self):
         '''
@@ -510,10 +511,10 @@ class HiddenMarkovModel(object):
         ExitCircuitTrafficModelEmissionCount
         ExitCircuitTrafficModelLogDelayTime
         ExitCircuitTrafficModelSquaredLogDelayTime
-        ExitCircuitTrafficModelStreamCount
+        ExitCircuitTrafficModelCircuitCount
         ExitCircuitTrafficModelTransitionCount
         '''
-        static_labels = ['{}StreamCount'.format(self.prefix),
+        static_labels = ['{}{}'.format(self.prefix, self.path_count_str),
                          '{}EmissionCount'.format(self.prefix),
                          '{}TransitionCount'.format(self.prefix),
                          '{}DelayTime'.format(self.prefix),
-- 
2.43.0


From c1fa4ed7a168f5bdddf366d340563b13624802f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 17/42] fix: collect every traffic model counter when there is
 no traffic noise

---
 privcount/traffic_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index 44dd7cf..93ec8b0 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -372,7 +372,8 @@ class TrafficModel(object):
         for counter_label in label_map:
             template_label = label_map[counter_label]
             # only count the label if it was in the config
-            if template_label in templated_noise_config['counters']:
+            if (templated_noise_config is None or
+                template_label in templated_noise_config['counters']):
                 # traffic counters are all single bin counters
                 bins_dict[counter_label] = {'bins': [[0.0, float("inf")]]}
 
-- 
2.43.0


From 939f5d1c0b85766850393dfef861f474ad8d92d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 18/42] fix: update traffic models when a state has no stream
 delays

---
 privcount/traffic_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index 93ec8b0..9a20200 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -798,7 +798,11 @@ class HiddenMarkovModel(object):
                     dp_new = inertia * dp + (1.0-inertia) * e_count[state][obs]
                     # normalize to microseconds per stream before applying inertia, and then
                     # back to streams per microscond for lambda
-                    lam_new = 1.0 / ((inertia * (1.0/lam)) + ((1.0-inertia) * (1.0/e_lambda[state][obs])))
+                    if e_lambda[state][obs] > 0.0:
+                        lam_new = 1.0 / ((inertia * (1.0/lam)) + ((1.0-inertia) * (1.0/e_lambda[state][obs])))
+                    else:
+                        # no delays were counted, so keep the current rate
+                        lam_new = lam
 
                     self.emit_p[state][obs] = (dp_new, 0.0, 0.0, lam_new)
 
-- 
2.43.0


From 4c5a3c0d59c5e47d7bab970e4e463d5396571ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 19/42] fix: normalize final emission probabilities when
 updating traffic models

---
 privcount/traffic_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index 9a20200..f75073f 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -805,6 +805,10 @@ class HiddenMarkovModel(object):
                         lam_new = lam
 
                     self.emit_p[state][obs] = (dp_new, 0.0, 0.0, lam_new)
+                elif obs == 'F':
+                    dp = self.emit_p[state][obs][0]
+                    dp_new = inertia * dp + (1.0-inertia) * e_count[state][obs]
+                    self.emit_p[state][obs] = (dp_new,)
 
             # be extra sure our new probs sum to 1.0
             e_total = float(sum([v[0] for v in self.emit_p[state].values()]))
@@ -818,6 +822,8 @@ class HiddenMarkovModel(object):
                         (dp, mu, sigma, lam) = self.emit_p[state][obs]
                         dp_new = dp/e_total
                         self.emit_p[state][obs] = (dp_new, 0.0, 0.0, lam)
+                    elif obs == 'F':
+                        self.emit_p[state][obs] = (self.emit_p[state][obs][0]/e_total,)
             else:
                 logging.warning("BUG: we have no positive emission probabilities in updated model for state {}."
                     .format(state))
-- 
2.43.0


From 82bc0fad69e2da0ce81a4235b04a9d1c7607f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:47 +0000
Subject: [PATCH 20/42] fix: keep bins and noise apart when they are in one
 file

---
 privcount/tally_server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index d491145..f9c04a7 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -628,7 +628,8 @@ class TallyServer(ServerFactory, PrivCountServer):
             elif 'privacy' in conf and 'counters' in conf:
                 ts_conf['noise'] = {}
                 ts_conf['noise']['privacy'] = conf['privacy']
-                ts_conf['noise']['counters'] = conf['counters']
+                # bins and noise are updated separately
+                ts_conf['noise']['counters'] = deepcopy(conf['counters'])
             # sigmas file
             elif 'sigmas' in ts_conf:
                 ts_conf['sigmas'] = normalise_path(ts_conf['sigmas'])
@@ -642,7 +643,8 @@ class TallyServer(ServerFactory, PrivCountServer):
             # sigmas config in the same file
             else:
                 ts_conf['noise'] = {}
-                ts_conf['noise']['counters'] = conf['counters']
+                # bins and noise are updated separately
+                ts_conf['noise']['counters'] = deepcopy(conf['counters'])
 
             bins = ts_conf['counters']
             noise = ts_conf['noise']['counters']
-- 
2.43.0


From 1ef02ef56a05387ae56e1756883c59f7e786cfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 21/42] fix: return the default for missing IP addresses

---
 privcount/tagged_event.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/privcount/tagged_event.py b/privcount/tagged_event.py
index 379433c..0bdc7f4 100644
--- a/privcount/tagged_event.py
+++ b/privcount/tagged_event.py
@@ -441,8 +441,11 @@ def get_ip_address_value(field_name, fields, event_desc,
     Returns fields[field_name] as a string in canonical IP address form.
     If it is missing, return default.
     '''
+    if field_name not in fields:
+        assert not is_mandatory
+        return default
+
     # Canonicalise the IP address and return it as a string
     # This provides maximum compatibility with existing code
     return str(get_ip_address_object(field_name, fields, event_desc,
-                                     is_mandatory=is_mandatory,
-                                     default=default))
+                                     is_mandatory=is_mandatory))
-- 
2.43.0


From 90512e80a81a133818c4bffab765cc8f11b5df1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:16 +0000
Subject: [PATCH 22/42] fix: keep injecting after events with malformed times

---
 privcount/inject.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/privcount/inject.py b/privcount/inject.py
index b83a934..5c1fa56 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -197,7 +197,13 @@ class PrivCountDataInjector(ServerFactory):
                 return
 
             msg = line.strip()
-            this_time_start, this_time_end = self._get_event_times(msg)
+            try:
+                this_time_start, this_time_end = self._get_event_times(msg)
+            except (AssertionError, IndexError, ValueError):
+                # an empty line, or missing or malformed event times
+                logging.warning("Skipping event without valid times: '{}'"
+                                .format(msg))
+                continue
 
             # make sure this event is in our 'valid' event window
             if this_time_end < self.prune_before or this_time_end > self.prune_after:
-- 
2.43.0


From 5246ea398a95516d9c9ec486cec8649bf88efbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:16 +0000
Subject: [PATCH 23/42] fix: don't pause before the first injected event

---
 privcount/inject.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/privcount/inject.py b/privcount/inject.py
index 5c1fa56..2db2dac 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -218,7 +218,9 @@ class PrivCountDataInjector(ServerFactory):
             # if we need to simulate event inter-arrival times
             wait_time = 0.0
             if self.do_pause:
-                wait_time = this_time_end - self.last_time_end
+                # there is no pause before the first event
+                if self.last_time_end > 0.0:
+                    wait_time = this_time_end - self.last_time_end
                 self.last_time_end = this_time_end
 
             # ensure wait_time is sensible
-- 
2.43.0


From e49ae31bfdc078e0c0fa1eaff23345966a2343b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 24/42] fix: forget the imported shares when a share keeper
 refuses a share

When a later share did not match the configured counters, the share keeper
answered the start command with a failure, but kept the partial sum, stayed
active, and reported that sum when it was asked to stop.
---
 privcount/share_keeper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index b1ce3ad..b2e5eab 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -161,6 +161,10 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                                 .format(share, config))
                 # TODO: secure delete
                 del private_key
+                # we refused the round, so we must not report the sum of the
+                # shares that were imported before this one
+                del self.keystore
+                self.keystore = None
                 return None
 
         logging.info("successfully started and imported {} blinding shares for {} counters ({} bins)"
-- 
2.43.0


From 9c63cf3e22be87e89be8cc1cc3da3feb3b4989ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 25/42] fix: refuse unexpected share keeper keys without ending
 the process

An unexpected key, or the same key for two share keepers, raised a KeyError,
which ended the data collector's process.
---
 privcount/data_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 8d096d2..f3f899e 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -235,7 +235,8 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                 logging.info('we received an unexpected key for share keeper {}'.format(sk_uid))
                 digest_error = True
 
-            expected_sk_digests.remove(requested_sk_digest)
+            # each expected key must be offered exactly once
+            expected_sk_digests.discard(requested_sk_digest)
 
         if digest_error or len(expected_sk_digests) != 0:
             logging.info('refusing to start collecting without required share keepers')
-- 
2.43.0


From 66da56af701532be03202ecb873a2f494a8d0d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 26/42] fix: keep the start time of a round when a data
 collector checks in

Each check of the running aggregator repeated the checks of the start
command, which reset the recorded start of the round, so the reported start
and duration were wrong.
---
 privcount/data_collector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index f3f899e..0a723d7 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -123,9 +123,10 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         if self.start_config is None:
             return None
         else:
-            # we should have caught unknown counters when we started
-            return self.check_start_config(self.start_config,
-                                           allow_unknown_counters=False)
+            # we checked the counters when we started: don't check them again,
+            # because that also resets the recorded start of the round
+            return combine_counters(self.start_config['counters'],
+                                    self.start_config['noise']['counters'])
 
     def are_dc_events_expected(self):
         '''
-- 
2.43.0


From 56278c3783340981e41ff2eaf35a3e7840544139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 27/42] fix: a refused start command does not change the
 running round

A data collector that was already running refused a start command only after
it had replaced the stored start configuration, noise allocation and start
time. When the running round was stopped, the delay before the next round was
based on the noise of the refused round.
---
 privcount/data_collector.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 0a723d7..072504b 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -201,6 +201,12 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         to start a new collection phase
         return None if failure, otherwise json will encode result
         '''
+        # if we are still running from a previous incarnation, we need to stop
+        # first: check this before anything else, so that a refused command does
+        # not change what we know about the round that is running
+        if self.aggregator is not None:
+            return None
+
         # keep the start config to send to the TS at the end of the collection
         # deepcopy in case we make any modifications later
         self.start_config = deepcopy(config)
@@ -215,11 +221,6 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         if dc_counters is None:
             return None
 
-        # if we are still running from a previous incarnation, we need to stop
-        # first
-        if self.aggregator is not None:
-            return None
-
         # we require that only the configured share keepers be used in the
         # collection phase, because we must be able to encrypt messages to them
         expected_sk_digests = set()
-- 
2.43.0


From 8e2f5765d9c8560b5507e9fffaec4d4dfb46dfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 28/42] fix: start each aggregator at its own start time

When a round was stopped while its start was deferred, and another round was
started before that deferred start, the second round's aggregator was started
at the first round's time, before the other data collectors.
---
 privcount/data_collector.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 072504b..d7aad89 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -277,7 +277,8 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         # sync the time that we start listening for Tor events
         self.is_aggregator_pending = True
         aggregator_deferred = task.deferLater(reactor, defer_time,
-                                              self._start_aggregator_deferred)
+                                              self._start_aggregator_deferred,
+                                              self.aggregator)
         aggregator_deferred.addErrback(errorCallback)
         # return the generated shares now
         shares = self.aggregator.get_shares()
@@ -296,12 +297,15 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                      .format(len(shares), len(dc_counters), count_bins(dc_counters)))
         return shares
 
-    def _start_aggregator_deferred(self):
+    def _start_aggregator_deferred(self, aggregator):
         '''
+        Start aggregator, unless it was stopped in the meantime.
         This function is called using deferLater, so any exceptions will be
         handled by errorCallback.
         '''
-        if self.is_aggregator_pending:
+        # if the round was stopped before it began, another round's aggregator
+        # may be pending: that one has its own start time
+        if self.is_aggregator_pending and self.aggregator is aggregator:
             self.is_aggregator_pending = False
             self.aggregator.start()
             # schedule a once-off check that the aggregator has connected
-- 
2.43.0


From 60b45f744532c5a6f879c6458dcecc6abf17c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 29/42] fix: ignore data collectors without a version instead
 of exiting

---
 privcount/tally_server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index f9c04a7..be7a8ea 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -1422,11 +1422,14 @@ class TallyServer(ServerFactory, PrivCountServer):
 
         # Reject DC versions 1.0.0 and 1.0.1, they didn't add noise
         client_type = self.get_client_type(uid, status)
+        # (a client with no version is even older, or it is broken)
         pc_version = self._get_client_item(uid, 'privcount_version',
                                                   status, None)
+        if pc_version is None:
+            pc_version = ''
         pc_version_number, _, _ = pc_version.partition(' ')
         if client_type == 'DataCollector':
-            if pc_version_number == '1.0.0' or pc_version_number == '1.0.1':
+            if pc_version_number in ['', '1.0.0', '1.0.1']:
                 logging.warning("Insecure Data Collector PrivCount version {}: {} {}"
                                 .format(pc_version_number, cname, cinfo))
                 logging.debug("Insecure Data Collector PrivCount version {}: {} detail {} {}"
-- 
2.43.0


From a171f6e926440137448eeb18a97da8dabf6fe594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 30/42] fix: don't start share keepers without the shares of
 every data collector

---
 privcount/tally_server.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index be7a8ea..f316117 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -1798,6 +1798,13 @@ class CollectionPhase(object):
             if client_uid in self.need_shares:
                 # collect all shares for each SK together
                 shares = data # dict of {sk_uid : share}
+                # the results would be nonsense without every share
+                missing_shares = set(self.sk_uids).difference(shares)
+                if len(missing_shares) > 0:
+                    logging.warning("ignoring {} response from {} without shares for {}"
+                                    .format(is_start_string, cname,
+                                            summarise_list(missing_shares)))
+                    return
                 for sk_uid in shares:
                     self.encrypted_shares.setdefault(sk_uid, []).append(shares[sk_uid])
                 logging.info("received {} shares from data collector {}"
-- 
2.43.0


From e69056ec632a313ee8e75a998c63408e82d498ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 31/42] fix: don't tally the counts of some of the participants
 after an error

---
 privcount/tally_server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index f316117..5f895f9 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -2214,7 +2214,10 @@ class CollectionPhase(object):
 
         # keep going, we want the context for debugging
         tally_was_successful = False
-        if len(self.final_counts) <= 0:
+        if self.is_error():
+            # a partial sum of blinded counts is nonsense
+            logging.warning("no tally results to write, some clients did not send their counts")
+        elif len(self.final_counts) <= 0:
             logging.warning("no tally results to write!")
         else:
             tallied_counter = SecureCounters(self.counters_config,
-- 
2.43.0


From ce942a7a247c6e4a85142dcf2815716827e9c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 32/42] fix: accept several bins for the HSDir upload delay
 counters

Only the traffic model DelayTime counters have a single bin. The check
refused the bins in test/counters.bins.yaml for the HSDir2 UploadDelayTime
histograms.
---
 privcount/counter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/privcount/counter.py b/privcount/counter.py
index ddc0e3f..050c268 100644
--- a/privcount/counter.py
+++ b/privcount/counter.py
@@ -6420,7 +6420,9 @@ def check_bin_count_matches_name(bins):
         # handle template counters by stripping the non-template part
         key_template, _, _ = key.partition("_")
         # the TrafficModel DelayTime counters are single bin
-        if key_template.endswith("Count") or key_template.endswith("DelayTime"):
+        if (key_template.endswith("Count") or
+            ("TrafficModel" in key_template and
+             key_template.endswith("DelayTime"))):
             if bin_count != 1:
                 logging.warning("counter {} ends in Count, but has {} bins: {}"
                                 .format(key, bin_count, bins[key]))
-- 
2.43.0


From 50bda37c583e46637fd8a98b6cd085348e9dd53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 33/42] fix: normalise traffic models that hold counts or end
 states

Integer weights were divided without a fraction, and a row of zeroes (a
state that is never left) raised a ZeroDivisionError.
---
 privcount/traffic_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index f75073f..13a45ed 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -193,7 +193,7 @@ def __normalize_traffic_model_config_helper(model_config):
     '''
 
     if 'start_probability' in model_config:
-        start_prob_sum = sum(model_config['start_probability'].values())
+        start_prob_sum = float(sum(model_config['start_probability'].values()))
         for state in model_config['start_probability']:
             model_config['start_probability'][state] /= start_prob_sum
 
@@ -209,7 +209,10 @@ def __normalize_traffic_model_config_helper(model_config):
 
     if 'transition_probability' in model_config:
         for src in model_config['transition_probability']:
-            trans_prob_sum = sum(model_config['transition_probability'][src].values())
+            trans_prob_sum = float(sum(model_config['transition_probability'][src].values()))
+            # the end states are never left: they have no sum to divide by
+            if trans_prob_sum == 0.0:
+                continue
             for dst in model_config['transition_probability'][src]:
                 model_config['transition_probability'][src][dst] /= trans_prob_sum
 
-- 
2.43.0


From c22b8ded3fbbdfd06063f531c7f17a3370134f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 34/42] fix: plot totals of results with different sigmas

The warning used a variable that does not exist, so a NameError was raised.
---
 privcount/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/plot.py b/privcount/plot.py
index d1646d2..75936ce 100644
--- a/privcount/plot.py
+++ b/privcount/plot.py
@@ -578,7 +578,7 @@ def append_total_counters(counters):
 
         if total_sigma != counter['sigma']:
             logging.warning("Sigmas for {} are different in some input files. First sigma: {} Total sigma: {}"
-                            .format(name, sigma, total_sigma))
+                            .format(name, counter['sigma'], total_sigma))
 
         total_bins = []
 
-- 
2.43.0


From f2f7b6365134a7f6db3d49964bda2e5e4247b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 35/42] fix: only say that an error is bounded in plot text
 when it is

The error is kept in the counter, not in each bin, so each bin with noise
was listed as bounded.
---
 privcount/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/privcount/plot.py b/privcount/plot.py
index 75936ce..c8f569f 100644
--- a/privcount/plot.py
+++ b/privcount/plot.py
@@ -751,8 +751,8 @@ def calculate_bin_reliability(counters):
 
             # work out which values were bounded
             bin['is_value_bounded'] = (bin['value'] != bin['bound_value'])
-            bin['is_error_low_bounded'] = (bin.get('bound_error_difference_low', 0) != bin.get('error_difference', 0))
-            bin['is_error_high_bounded'] = (bin.get('bound_error_difference_high', 0) != bin.get('error_difference', 0))
+            bin['is_error_low_bounded'] = (bin.get('bound_error_difference_low', 0) != counter.get('error_difference', 0))
+            bin['is_error_high_bounded'] = (bin.get('bound_error_difference_high', 0) != counter.get('error_difference', 0))
 
             # alternate representation for text output
             bin['status'] = []
-- 
2.43.0


From 716bc555c40da00778ad3aa7da167dfa76558e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 36/42] fix: label bins with the names of list files that have
 no extension

The label was empty.
---
 privcount/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/plot.py b/privcount/plot.py
index c8f569f..ca49026 100644
--- a/privcount/plot.py
+++ b/privcount/plot.py
@@ -504,7 +504,8 @@ def get_bin_labels(counter_name, bin_count, bin_labels, bin_label_source):
             # strip file paths down to the filename
             if label_str.startswith('/'):
                 _, _, label_str = label_str.rpartition('/')
-                label_str, _, _ = label_str.rpartition('.')
+                # a name without an extension is the whole label
+                label_str = label_str.rpartition('.')[0] or label_str
             stripped_labels.append(label_str)
 
         labels = stripped_labels
-- 
2.43.0


From e8ff9108de67cfa3865bd8058b78c08a8936570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 37/42] fix: plot the results of rounds that had a sigmas file

A file of sigmas has no privacy values, so a KeyError was raised.
---
 privcount/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/privcount/plot.py b/privcount/plot.py
index ca49026..0d0f74e 100644
--- a/privcount/plot.py
+++ b/privcount/plot.py
@@ -266,8 +266,8 @@ def load_input_file(path):
         else: # this is a tallies file
             histograms = data
 
-        if 'Context' in data: # this is an outcome file that has privacy values
-            privacy = data['Context']['TallyServer']['Config']['noise']['privacy']
+        if 'Context' in data: # this is an outcome file that *might* have privacy values
+            privacy = data['Context']['TallyServer']['Config']['noise'].get('privacy', {})
         else: # this is a tallies file that does not have privacy values
             privacy = {}
 
-- 
2.43.0


From f2309197e4bfd4702543bee9ac7f9967f2e21111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 38/42] fix: warn about unexpected hidden service parameters of
 a consensus

logging was not imported, so a NameError was raised instead.
---
 privcount/tools/compute_fractional_position_weights | 1 +
 1 file changed, 1 insertion(+)

diff --git a/privcount/tools/compute_fractional_position_weights b/privcount/tools/compute_fractional_position_weights
index 57cb6e6..0ee52e2 100755
--- a/privcount/tools/compute_fractional_position_weights
+++ b/privcount/tools/compute_fractional_position_weights
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 import datetime
+import logging
 import os
 import sys
 
-- 
2.43.0


From 563ce0357d87340570d3e76671453cd4ee701df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 39/42] fix: accept new and removed keys in changed client
 config files

A new key raised a KeyError when the change was logged, so the changes
after it were not made, and a key that was removed kept its value.
---
 privcount/data_collector.py | 10 ++++++----
 privcount/share_keeper.py   | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index d7aad89..2372a55 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -399,14 +399,16 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                 logging.info("using config = %s", str(self.config))
             else:
                 changed = False
-                for k in dc_conf:
-                    if k not in self.config or dc_conf[k] != self.config[k]:
-                        logging.info("updated config for key {} from {} to {}".format(k, self.config[k], dc_conf[k]))
-                        self.config[k] = dc_conf[k]
+                for k in set(self.config).union(dc_conf):
+                    if self.config.get(k) != dc_conf.get(k):
+                        logging.info("updated config for key {} from {} to {}".format(k, self.config.get(k), dc_conf.get(k)))
                         changed = True
                 if not changed:
                     logging.debug('no config changes found')
 
+                # unconditionally replace the config, like the tally server
+                self.config = dc_conf
+
         except AssertionError:
             logging.warning("problem reading config file: invalid data")
             log_error()
diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index b2e5eab..8175f3a 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -246,14 +246,16 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                 logging.info("using config = %s", str(self.config))
             else:
                 changed = False
-                for k in sk_conf:
-                    if k not in self.config or sk_conf[k] != self.config[k]:
-                        logging.info("updated config for key {} from {} to {}".format(k, self.config[k], sk_conf[k]))
-                        self.config[k] = sk_conf[k]
+                for k in set(self.config).union(sk_conf):
+                    if self.config.get(k) != sk_conf.get(k):
+                        logging.info("updated config for key {} from {} to {}".format(k, self.config.get(k), sk_conf.get(k)))
                         changed = True
                 if not changed:
                     logging.debug('no config changes found')
 
+                # unconditionally replace the config, like the tally server
+                self.config = sk_conf
+
         except AssertionError:
             logging.warning("problem reading config file: invalid data")
             log_error()
-- 
2.43.0


From b9c717ed5a9177d2841177da354d4179c7f280ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 40/42] fix: a config file that cannot be read or parsed no
 longer stops a running node

---
 privcount/data_collector.py | 4 ++++
 privcount/share_keeper.py   | 4 ++++
 privcount/tally_server.py   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 2372a55..4e6b4ec 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -415,6 +415,10 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         except KeyError:
             logging.warning("problem reading config file: missing required keys")
             log_error()
+        except Exception:
+            # a running node keeps its config when it can't read the new one
+            logging.warning("problem reading config file: missing or malformed file")
+            log_error()
 
 class Aggregator(ReconnectingClientFactory):
     '''
diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index 8175f3a..cf5d83d 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -262,3 +262,7 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
         except KeyError:
             logging.warning("problem reading config file: missing required keys")
             log_error()
+        except Exception:
+            # a running node keeps its config when it can't read the new one
+            logging.warning("problem reading config file: missing or malformed file")
+            log_error()
diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 5f895f9..74e74e6 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -1013,6 +1013,10 @@ class TallyServer(ServerFactory, PrivCountServer):
         except KeyError:
             logging.warning("problem reading config file: missing required keys")
             log_error()
+        except Exception:
+            # a running node keeps its config when it can't read the new one
+            logging.warning("problem reading config file: missing or malformed file")
+            log_error()
 
     MIN_SAFE_RTT = 2.0
     TYPICAL_RTT_JITTER = 1.0
-- 
2.43.0


From 2223dcaa4d118a5d9113347ff232b5f6e72ebb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 41/42] fix: summarise strings when there is room for one
 character

---
 privcount/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/log.py b/privcount/log.py
index 8d31970..ae1c28e 100644
--- a/privcount/log.py
+++ b/privcount/log.py
@@ -111,7 +111,7 @@ def summarise_string(long_str, max_len=100, ellipsis='...'):
         end_len = content_len / 2
         assert start_len + e_len + end_len == max_len
         summary_str = (long_str[0:start_len] + ellipsis +
-                       long_str[-end_len:])
+                       long_str[orig_len - end_len:])
         assert len(summary_str) == max_len
         return summary_str
 
-- 
2.43.0


From 51a47748844fcd5cff23e8534445270c75f50eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 42/42] fix: allocate noise to the templates of traffic model
 counters

---
 privcount/tools/compute_noise_traffic_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/privcount/tools/compute_noise_traffic_model.py b/privcount/tools/compute_noise_traffic_model.py
index 6e8985d..30c54c6 100644
--- a/privcount/tools/compute_noise_traffic_model.py
+++ b/privcount/tools/compute_noise_traffic_model.py
@@ -5,6 +5,8 @@ import yaml
 
 import privcount.statistics_noise as psn
 
+from privcount.counter import register_dynamic_counter, VITERBI_PACKETS_EVENT
+
 ## useful constants
 NUM_SECONDS_PER_DAY = 24*60*60
 NUM_MICROSECONDS_PER_SECOND = 1000*1000
@@ -69,6 +71,11 @@ traffic_model_parameters = {
 }
 
 if __name__ == '__main__':
+    # the templates are not in the table of counters
+    for counter in traffic_model_parameters:
+        if '<' in counter:
+            register_dynamic_counter(counter, { VITERBI_PACKETS_EVENT })
+
     epsilon = 0.3
     delta = 1e-3
     excess_noise_ratio = num_relay_machines # factor by which noise is expanded to allow for malicious relays
-- 
2.43.0

