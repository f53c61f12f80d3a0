#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "Tallies equal the true sums once every share is combined",
  "When the blinded counts of any set of data collectors are combined with the share sums of every share keeper, each bin of each counter in the tally equals the sum of everything the collectors counted in that bin plus their noise, as a signed value, whatever the number of parties, counters, bins and increments. Combining is refused when any report lacks a counter, has a different number of bins, or lacks a count. Reports survive the JSON round trip they make on the wire unchanged.",
  ["inputs", "configurations", "histories"],
  "for every number of collectors and keepers, every valid bin layout, every interleaving of increments, every modulus in use and every signed total in range",
  "test_counter.py checks a handful of fixed values with one or two keepers; the identity must hold for every topology, bin layout and sequence of increments",
  ["privcount/counter.py", "privcount/crypto.py"],
  [("blinding, unblinding and share import", "privcount/counter.py SecureCounters"),
   ("signed interpretation of the ring value", "privcount/counter.py adjust_count_signed"),
   ("tally", "privcount/counter.py SecureCounters.tally_counters")],
  ["tallied counts returned by tally_counters", "counts returned by detach_counts"])

p("C02", "Blinded reports hide the counts from anyone missing one keeper's share",
  "Every value a collector or share keeper reports lies in [0, modulus), and each (share keeper, counter, bin) gets its own blinding factor drawn uniformly from that whole range with operating system randomness, so reports that lack any one keeper's share are independent of the counts. Counting n more events moves the reported value by exactly n modulo the modulus and nothing else. Shares can be taken once only, and after the counts are reported neither shares nor counts can be obtained or changed again.",
  ["inputs", "histories"],
  "for every modulus, counter set, keeper set, random stream and call order",
  "the unit tests sample random values and look at averages; independence of every share and value range for every random stream cannot be sampled by a few runs",
  ["privcount/counter.py"],
  [("uniform sampling", "privcount/counter.py sample"),
   ("share generation and detaching", "privcount/counter.py SecureCounters.generate_blinding_shares / detach_blinding_shares / detach_counts"),
   ("blinding factor derivation", "privcount/counter.py derive_blinding_factor")],
  ["detach_blinding_shares", "detach_counts"])

p("C03", "Every reported bin carries its calibrated Gaussian noise exactly once",
  "A collector that must add noise cannot report counts before noise has been generated, and every bin of every counter then carries an independent zero-mean Gaussian noise value with standard deviation sigma times the collector's noise weight, added exactly once. A relay with no noise weight in the round's configuration contributes no counts at all.",
  ["inputs", "configurations", "histories"],
  "for every counter and bin set, sigma, noise weight and call order",
  "the tests compute a handful of noise values with fixed parameters; per-bin independence and calibration must hold for every configuration",
  ["privcount/counter.py", "privcount/data_collector.py"],
  [("noise generation", "privcount/counter.py SecureCounters.generate_noise, noise"),
   ("noise weight lookup", "privcount/counter.py get_noise_weight; privcount/data_collector.py Aggregator.generate_noise")],
  ["detach_counts after unblinding", "counts sent by a data collector"])

p("C04", "An increment lands in exactly the bins whose range contains the value",
  "Incrementing a histogram adds the increment to exactly those bins [low, high) that contain the value and leaves every other bin and counter unchanged, including for infinite bounds, negative values and values on a bin edge. Single-bin counters accept only increments without a bin value and change by exactly the increment, and an increment of a counter that is not collected has no effect.",
  ["inputs", "configurations", "histories"],
  "for every valid bin layout, every value (including edges and infinities) and every sequence of increments",
  "the tests exercise a few fixed bins",
  ["privcount/counter.py"],
  [("bin selection", "privcount/counter.py SecureCounters.increment, is_in_bin")],
  ["tally of the counters"])

p("C05", "Only complete and sane counter and noise-weight configurations are accepted",
  "A counter configuration is accepted exactly when every name is a known counter, count and delay time counters have one bin and all others several, each bin has low < high, bins do not overlap, every sigma is a non-negative number, and bins and sigmas name the same counters. Noise weights and data collector thresholds are accepted exactly when the threshold is in its allowed range, every weight and their largest possible sum are non-negative numbers within the tally's limits, and a threshold of collectors, or a default, has a weight.",
  ["configurations", "inputs"],
  "for every configuration built from known and unknown names, ordered and unordered bins, and numeric values including NaN, infinities and negative values",
  "the tests check a handful of accepted and rejected dictionaries",
  ["privcount/counter.py"],
  [("bins and sigmas checks", "privcount/counter.py check_bins_config, check_sigmas_config, check_combined_counters, check_counters_config"),
   ("noise weight checks", "privcount/counter.py check_noise_weight_config, check_dc_threshold")],
  ["result of the configuration checks"])

p("C06", "Rounds that could breach the privacy budget are separated by the delay period",
  "If the set of counters changes, or any sigma falls by more than the tolerance below its value at the start of the current series of equivalent rounds, a new round is not permitted to start until the configured delay period has passed since the end of the last successful round; otherwise it may start as soon as that round has ended, unless the operator always delays. A gradual decrease over many rounds is measured against the first of them. Failed rounds change nothing, and before the first successful round any start is permitted.",
  ["histories", "configurations"],
  "for every sequence of rounds with changing sigmas, counters, delay periods, tolerances, start and stop times",
  "the tests walk one or two fixed sequences; the delay must hold for every history",
  ["privcount/counter.py"],
  [("delay state machine", "privcount/counter.py CollectionDelay")],
  ["round_start_permitted, get_next_round_start_time after any history"])

p("C07", "Only peers that prove knowledge of the shared handshake secret are accepted",
  "A connection between a tally server and a client becomes authenticated on either side only after the other side has proved, over both fresh cookies and in the agreed roles, that it knows the shared handshake secret. A peer that sends messages out of order, replayed from another session, reflected, truncated or altered is never authenticated, and a failed or wrong proof ends the connection. Before authentication no status, check-in, start or stop message has any effect, and a line longer than the current limit ends the connection. Two honest parties with the same secret always authenticate each other.",
  ["inputs", "histories", "fault_sequences"],
  "for every sequence of lines a peer without the secret can send, every mutation of a genuine transcript, every reordering and replay",
  "the protocol module has no automated tests for the handshake; an attacker's input is arbitrary",
  ["privcount/protocol.py", "privcount/crypto.py"],
  [("server side handshake", "privcount/protocol.py PrivCountServerProtocol.handle_handshake_event"),
   ("client side handshake", "privcount/protocol.py PrivCountClientProtocol.handle_handshake_event"),
   ("dispatch and line limits", "privcount/protocol.py PrivCountProtocol.process_event, check_line_length")],
  ["authenticated state, messages delivered to the node, connection closed"])

p("C08", "Cryptographic encodings round-trip and tampering is detected",
  "Encoding or encrypting any JSON value and reversing it with the right key returns the same value, while any altered, truncated or wrongly keyed ciphertext is refused rather than decoded to something else. Keyed hashes depend on the key, the prefix and the data exactly as standard HMAC-SHA256 over their concatenation, and a public key's digest is the same whether computed from the private or the public key. The predicted encoded lengths equal the real ones for every input length.",
  ["inputs"],
  "for every data structure, key, prefix, byte length and mutation",
  "the crypto helpers are exercised only by manual scripts",
  ["privcount/crypto.py"],
  [("encode/decode", "privcount/crypto.py encode_data, decode_data"),
   ("hybrid encryption", "privcount/crypto.py encrypt, decrypt"),
   ("keyed hash", "privcount/crypto.py get_hmac, verify_hmac")],
  ["returned values, exceptions"])

p("C09", "The Tor control client authenticates safely and picks the strongest method",
  "Given any set of offered authentication methods and locally configured secrets, the control client uses safe cookie when a cookie file is configured and offered, else the password if offered, else no secret, and never sends the cookie or password otherwise. With safe cookie it reveals its own proof only after verifying the server's proof for its own fresh nonce, and a wrong or malformed proof or an error reply ends the connection. Cookie and password files of unacceptable length are refused, the stub server accepts exactly the correct secrets, and every string survives quoting and unquoting for the control protocol.",
  ["inputs", "configurations", "fault_sequences"],
  "for every method set, secret, nonce, server reply and string",
  "no automated tests cover the control protocol; test scripts need a live Tor",
  ["privcount/protocol.py"],
  [("control client state machine", "privcount/protocol.py TorControlClientProtocol.lineReceived"),
   ("nonce, hash and string coding", "privcount/protocol.py TorControlProtocol")],
  ["lines sent to Tor, connection closed"])

p("C10", "Control events are counted only while collecting, and only those asked for",
  "The control client passes an event to the collector only while collection is running and only if it is one of the events needed by the configured counters; before collection starts, after it stops and for other events nothing is delivered. The relay's fingerprint and other discovered facts are passed on exactly as Tor reported them, only valid ones, before collection begins. When configuration changes are disabled it sends no setting commands; if EnablePrivCount is not on when collection starts, or Tor answers a command with an error or refuses the events, the connection is closed.",
  ["histories", "inputs", "fault_sequences"],
  "for every interleaving of replies, events, start and stop calls and errors",
  "no automated tests cover the control protocol",
  ["privcount/protocol.py", "privcount/counter.py", "privcount/data_collector.py"],
  [("state machine", "privcount/protocol.py TorControlClientProtocol"),
   ("counter to event map", "privcount/counter.py get_events_for_counters")],
  ["events delivered, lines sent"])

p("C11", "A round yields a tally only from complete, single reports of every participant",
  "In any order of client messages, share keepers are only started after every data collector's shares arrived, each participant's start and stop data is used at most once, and a round's tally is produced only if the counts of every participating data collector and share keeper have been received and no participant reported an error. Messages from clients that are not part of the round change nothing. The published tally then equals the combination of exactly those reports.",
  ["histories", "schedules", "fault_sequences"],
  "for every number of participants and every order, duplication or loss of their messages, including repeated rounds",
  "the round logic has no unit tests; integration tests need live processes and follow one order",
  ["privcount/tally_server.py"],
  [("collection phase state machine", "privcount/tally_server.py CollectionPhase"),
   ("round management", "privcount/tally_server.py TallyServer")],
  ["start and stop configurations handed out, result files"])

p("C12", "The tally server starts and ends rounds only under its configured conditions",
  "A round starts, at the tally server's next check, exactly when at least the configured thresholds of data collectors and share keepers are idle and recently seen, after the configured start time and any required delay, and while fewer rounds have been completed than configured. A running round ends when its period has elapsed; every participant is then sent a stop command, asking for counts unless the round failed, whenever it checks in until it has answered. Clients are forgotten exactly when they exceed the allowed silence, data collectors with insecure or missing versions never count towards a threshold, and the status sent to clients reports these facts. An invalid edit of the configuration changes nothing, and a valid one applies from the next check but never to the running round.",
  ["histories", "configurations", "schedules"],
  "for every configuration and history of client statuses, losses and clock advances",
  "no unit tests of the tally server's scheduling",
  ["privcount/tally_server.py", "privcount/node.py"],
  [("event loop", "privcount/tally_server.py TallyServer.refresh_loop"),
   ("client status", "privcount/tally_server.py TallyServer.set_client_status, clear_dead_clients"),
   ("round limits", "privcount/node.py continue_collecting")],
  ["commands handed to clients, state reported"])

p("C13", "Published results never leak secrets or raw relay match lists",
  "Result and status data written or sent to other parties never contain private key material, blinding shares, secret handshake contents, or per-relay raw counts, and long match lists appear only as summaries. The results file records for every client exactly the start and end state it reported, and for every counter exactly the tallied bins and sigma in use. The configuration sent to a data collector is the round's configuration and share keepers get only the shares encrypted to them.",
  ["configurations", "histories"],
  "for every configuration and client state",
  "no unit tests read the results file",
  ["privcount/tally_server.py", "privcount/node.py"],
  [("result context", "privcount/tally_server.py CollectionPhase.get_result_context, write_results"),
   ("summaries", "privcount/node.py summarise_config_lists")],
  ["result files, start configurations"])

p("C14", "A share keeper combines exactly the shares addressed to it, once",
  "A share keeper accepts a start command only with a valid configuration after any required delay, imports every share exactly once after decrypting it with its own key, and answers with no counts at all if anything is invalid. A newly accepted start replaces an earlier one. Its report is the sum of the imported shares for exactly the configured counters and bins. It never counts or reports anything before a valid start, and after reporting it returns to idle ready for a fresh round.",
  ["inputs", "histories", "configurations"],
  "for every start and stop configuration, every set of shares including corrupted or foreign ones, and every command order",
  "no unit tests of the share keeper",
  ["privcount/share_keeper.py", "privcount/node.py"],
  [("start and stop", "privcount/share_keeper.py ShareKeeper.do_start, do_stop"),
   ("start validation", "privcount/node.py PrivCountClient.check_start_config")],
  ["answers to start and stop commands"])

p("C15", "A data collector refuses unsafe rounds and shares only with known keepers",
  "A data collector starts a round only if the counters, noise weights, threshold, periods and delay are acceptable to its own configuration and the set of share keeper keys offered is exactly the set it expects; otherwise it reports no shares and stays running and idle. On success it returns one encrypted share set per keeper that only that keeper can read. When stopped it reports counts only for a round that ran, passed the configured checks and was not cancelled, and never twice.",
  ["inputs", "configurations", "histories"],
  "for every start configuration, key set and command order",
  "no unit tests of the data collector's commands",
  ["privcount/data_collector.py", "privcount/node.py"],
  [("start and stop", "privcount/data_collector.py DataCollector.do_start, do_stop"),
   ("validation", "privcount/node.py PrivCountClient.check_start_config, check_stop_config")],
  ["answers to start and stop commands"])

p("C16", "Stream-end events update exactly the documented exit stream counters",
  "For every well-formed stream-end event each collected exit-stream counter changes by exactly the amount its documented definition gives for that event's port, bytes, times, destination and position in the circuit, and all others stay unchanged. Domain list counters count a stream in the first matching list by exact name or by domain suffix, or as no match, each independently of whether the other kind is also collected. Streams without data, and events that are malformed, count nothing.",
  ["inputs", "configurations", "histories"],
  "for every stream event, every combination of collected counters and every domain list",
  "no unit test feeds events to the aggregator",
  ["privcount/data_collector.py", "privcount/match.py"],
  [("stream handler", "privcount/data_collector.py Aggregator._handle_stream_event")],
  ["counter changes after the event"])

p("C17", "Circuit-close events update exactly the documented circuit counters",
  "For every valid circuit-close event each collected circuit counter changes by exactly the amount its documented definition gives for that circuit's position, purpose, hidden service version, activity, success (and every combination of activity and success), cells, duration and failure reason, and all others stay unchanged. Repeating an event repeats its effect and the order of events does not matter.",
  ["inputs", "configurations", "histories"],
  "for every combination of flags, counts and times, and every counter",
  "no unit test feeds events to the aggregator",
  ["privcount/data_collector.py"],
  [("circuit handler", "privcount/data_collector.py Aggregator._handle_circuit_close_event"),
   ("field validation", "privcount/data_collector.py Aggregator.are_circuit_close_fields_valid")],
  ["counter changes after the event"])

p("C18", "Connection and client-address events update exactly the documented counters",
  "For every valid connection-close event each collected connection counter changes by exactly the amount its documented definition gives for the connection's kind, bytes, circuits, duration, relay-on-address, country and AS. Unique client counters count each entry client address once per rotation period, as active or inactive, with per-client circuit histograms, and forget addresses after the following period.",
  ["inputs", "configurations", "histories"],
  "for every event history, country and AS list, and rotation schedule",
  "no unit test feeds events to the aggregator",
  ["privcount/data_collector.py", "privcount/match.py"],
  [("connection handler", "privcount/data_collector.py Aggregator._handle_connection_close_event"),
   ("rotation", "privcount/data_collector.py Aggregator._do_rotate")],
  ["counter changes after the event"])

p("C19", "Onion directory events update exactly the documented descriptor counters",
  "For every valid descriptor store or fetch event each collected onion directory counter changes by exactly the amount its documented definition gives for the descriptor's version, whether it was accepted, cached and needed client authorisation, its sizes and reason, and its position in the configured address and reason lists. Onion addresses are matched whether given in the clear or as a digest, and private data never influences other counters.",
  ["inputs", "configurations", "histories"],
  "for every event, list configuration and counter",
  "no unit test feeds events to the aggregator",
  ["privcount/data_collector.py", "privcount/match.py"],
  [("store handler", "privcount/data_collector.py Aggregator._handle_hsdir_store_event"),
   ("fetch handler", "privcount/data_collector.py Aggregator._handle_hsdir_fetch_event")],
  ["counter changes after the event"])

p("C20", "Malformed or unknown tagged events neither crash the collector nor count",
  "Whatever the fields of a circuit, connection, onion directory, cell or unknown tagged event are (missing, duplicated, badly typed, out of range, NaN, infinite, or garbage), handling it neither raises nor asks for the connection to be closed, and when a needed field is invalid no counter changes. Unknown event names and unexpected extra fields are ignored, and later valid events count as if the malformed event had never arrived.",
  ["inputs", "histories", "fault_sequences"],
  "for every byte string in every field of every tagged event",
  "no unit test feeds malformed events",
  ["privcount/data_collector.py", "privcount/tagged_event.py"],
  [("tagged event dispatch", "privcount/data_collector.py Aggregator.handle_event, _handle_tagged_event"),
   ("field validation", "privcount/tagged_event.py")],
  ["return value of event handling, counters"])

p("C21", "Name matching finds exactly the first list that contains the name",
  "For any collection of lists, exact matching returns the index of the earliest list containing the name ignoring case, and none if no list does; suffix matching returns the earliest list among the shortest listed suffix of the name on label boundaries, and none if no listed suffix applies. Preparing lists removes duplicates and shadowed entries without changing any match result. Comments and blank lines in list files are ignored and duplicate or invalid entries are rejected or dropped as configured. Reloading the configuration after list files are edited, reordered or removed gives the same result as loading it afresh, and list counters get one bin per list plus one for no match.",
  ["inputs", "configurations"],
  "for every list collection and search string",
  "matching has only a timing script with hand-checked output",
  ["privcount/match.py", "privcount/config.py"],
  [("exact and suffix matching", "privcount/match.py exact_match, suffix_match, *_prepare_collection"),
   ("list loading", "privcount/match.py load_match_list")],
  ["match results"])

p("C22", "Noise allocation spends the privacy budget and no more",
  "For any sensitivities, estimated values, epsilon and delta, the sigmas computed for a set of counters satisfy differential privacy for per-counter epsilons that sum to no more than the total budget, and give every counter the same ratio of expected noise to its estimated value within tolerance, whatever the scale of the values; the zero-sensitivity sanity check counter takes no part. Parameters for which no allocation exists may be refused with an error, never answered with too little noise. The noise for one counter is the smallest that suffices: it satisfies the requirement and a slightly smaller one does not, and more sensitivity or less epsilon never needs less noise. A written allocation reloads with the same sigmas. The two programs that compute noise for operators print, for every counter of their tables, exactly such an allocation, and give the bins of a histogram at least twice the sensitivity of its count.",
  ["inputs", "configurations"],
  "for every parameter set in the documented range",
  "compute_noise.py is run on one example configuration",
  ["privcount/statistics_noise.py", "privcount/tools/compute_noise.py", "privcount/tools/compute_noise_traffic_model.py"],
  [("allocation", "privcount/statistics_noise.py get_noise_allocation, get_opt_privacy_allocation"),
   ("dp test", "privcount/statistics_noise.py satisfies_dp, get_differentially_private_std"),
   ("reports", "privcount/statistics_noise.py print_privacy_allocation, compare_noise_allocation; privcount/tools/compute_noise.py, compute_noise_traffic_model.py")],
  ["computed sigmas and epsilons", "the printed allocations"])

p("C23", "Traffic models are validated, normalised and registered consistently",
  "A traffic model is accepted exactly when its states, observations and probabilities are complete, non-negative and refer to each other, and no model or malformed dictionary makes the check raise. Normalising makes every start, transition and emission distribution sum to one while keeping proportions. The counters a valid model needs are known to the counter registry, its noise and bin configuration names exactly one counter per model parameter with the sigma of the matching template, and a tally server that loads a valid model with its noise collects exactly those counters.",
  ["inputs", "configurations"],
  "for every model over generated state and observation spaces, and every corruption of one",
  "the tests use three fixed models",
  ["privcount/traffic_model.py"],
  [("validation", "privcount/traffic_model.py check_traffic_model_config"),
   ("counter labels", "privcount/traffic_model.py TrafficModel, HiddenMarkovModel")],
  ["check result, label sets, bins and sigma configuration"])

p("C24", "Traffic model counting and updating follow the most likely paths",
  "For any decoded path, the packet and stream counters of the model change by exactly the number of starts, transitions, emissions and observation sums along the path. Updating a model from tallies, however noisy, zero or negative, never fails, and yields a valid model whose distributions sum to one and equal the inertia-weighted mean of the old probabilities and the tallied frequencies; parameters of states and observations that were never counted keep their old values or the documented fallback.",
  ["inputs", "histories"],
  "for every valid model, path and tally",
  "the tests update two fixed models from fixed tallies",
  ["privcount/traffic_model.py"],
  [("counting", "privcount/traffic_model.py HiddenMarkovModel.increment_counters"),
   ("updating", "privcount/traffic_model.py HiddenMarkovModel.update_from_tallies")],
  ["counter changes, updated model"])

p("C25", "A whole simulated deployment publishes exact totals or nothing",
  "In a deployment of one tally server, any number of data collectors with their relays and any number of share keepers, over any schedule of connections, events and message deliveries without faults, each finished round publishes for every counter the exact total of the events the relays delivered during the round (noise aside). If a party restarts, crashes or refuses during a round, that round publishes no tally; once every participant has answered or come back, later rounds work and are exact again. No secret key, handshake secret, blinding share or single party's report appears in what is published.",
  ["schedules", "histories", "fault_sequences"],
  "for every topology, schedule of network deliveries, clock advance and fault",
  "the integration test needs live processes, runs one topology and one schedule, and only looks for a results file",
  ["privcount/tally_server.py", "privcount/data_collector.py", "privcount/share_keeper.py", "privcount/protocol.py", "privcount/counter.py", "privcount/crypto.py"],
  [("the whole round", "privcount/tally_server.py, privcount/data_collector.py, privcount/share_keeper.py, privcount/protocol.py")],
  ["result files in the tally server's results directory"])

p("C26", "Address ports, control secrets and connections are validated as documented",
  "A listen or connect configuration is accepted exactly when it names a usable port, address or unix path in one of the documented forms, singly or as a list, and the secrets and connection chosen come from it. What is opened is exactly what is configured: one listener or connection per valid item, at the address given, or on the loopback interface when there is none. Endpoint descriptions of any transport address never raise. Relay facts reported to the collector (ports, addresses, versions, nicknames, fingerprints, flags) are stored exactly when valid and never overwritten by an invalid value.",
  ["inputs", "configurations"],
  "for every configuration shape and every reported string",
  "no unit tests",
  ["privcount/connection.py", "privcount/data_collector.py"],
  [("connection configuration", "privcount/connection.py validate_connection_config, choose_a_connection_with"),
   ("relay facts", "privcount/data_collector.py Aggregator.set_*")],
  ["result of validation, stored values"])

p("C27", "Replayed event logs keep their order, content and relative times",
  "Replaying a log of events delivers every event inside the requested time window, in order, and no other, with every field unchanged except the event times: the end time becomes the time of delivery and the start time keeps its distance from it. In live simulation the pauses follow the gaps between the recorded end times, and there is none before the first event. Empty lines and events without readable times are skipped and never stop the replay; after the client disconnects, quits or turns events off nothing more is delivered. When the replay is over the connection is closed and the injector exits.",
  ["inputs", "histories"],
  "for every log, window and pause setting",
  "the injector is only used by the manual integration script",
  ["privcount/inject.py"],
  [("event replay", "privcount/inject.py PrivCountDataInjector")],
  ["lines sent to the collector"])

p("C28", "Tagged fields are parsed, validated and formatted without loss",
  "Parsing a tagged event returns exactly the key and value pairs it contains, and nothing at all if any field is malformed. A typed field check accepts exactly the values of that type inside the stated range, and the typed getter then returns that same value, for integers, floats, flags, strings, lists and addresses.",
  ["inputs"],
  "for every list of fields and every value and range",
  "no unit tests",
  ["privcount/tagged_event.py"],
  [("parsing", "privcount/tagged_event.py parse_tagged_event"),
   ("validators and getters", "privcount/tagged_event.py is_*_valid, get_*_value")],
  ["returned values"])

p("C29", "The operator's configuration decides what every collector counts",
  "The match lists of every kind, the prefix maps, the circuit sample rate, the cell limit, the counters and the traffic model in the files the operator gives the tally server reach every data collector of the round unaltered and each in its own role: the published counters, bins and counts are those of the delivered events under that configuration. Each relay is asked for exactly the events those counters need, with the configured sample rate and cell limit (unless its collector is set not to change the relay's settings: then none are sent) and with the configured traffic model. When the round ends, the relay is left without events, without a traffic model and with its default settings. Files that change during a round have no effect on that round. The files of results agree with each other; a round with a traffic model also leaves the model updated from its tallies, and a link to it.",
  ["inputs", "configurations", "histories"],
  "for every configuration of the counters, lists, maps, sampling and model, and every change of it between and during rounds",
  "the unit tests use single functions; the integration configuration is one set of lists and needs live processes",
  ["privcount/tally_server.py", "privcount/data_collector.py", "privcount/protocol.py", "privcount/traffic_model.py", "privcount/counter.py"],
  [("the round's configuration", "privcount/tally_server.py TallyServer.refresh_config, CollectionPhase.get_start_config"),
   ("its use", "privcount/data_collector.py DataCollector.do_start, Aggregator.__init__"),
   ("the relay", "privcount/protocol.py TorControlClientProtocol.enableEvents, disableEvents")],
  ["commands sent to the relay", "published counters, bins and counts"])

p("C30", "Plots and result texts show the published values with the right errors",
  "For any set of result files, every bin of every counter appears once in the text and on the page of its counter with its exact value, its label (the range, the name or content of its match list, or the user's label), and the error that follows from its sigma, the excess noise ratio and the requested confidence; bounds on values and errors are applied and reported only where they apply; totals add the values, and their errors as independent noise; bins are left out exactly when the user asks to ignore noisy or possibly zero results and every input agrees. The outcome file of any round can be plotted, whether its noise came from sigmas or an allocation.",
  ["inputs", "configurations"],
  "for every result file, set of files and set of options",
  "no unit tests; the integration script plots one result and does not look at it",
  ["privcount/plot.py", "privcount/tally_server.py"],
  [("loading and labels", "privcount/plot.py load_input_file, get_bin_labels"),
   ("errors and bounds", "privcount/plot.py calculate_error_values, calculate_bin_reliability"),
   ("output", "privcount/plot.py output_text_file, get_plot_info, plot_bar_chart")],
  ["results text file, bars and error bars of each page"])

p("C31", "Position weights are the exact share of each role the relays hold",
  "For any consensus and any set of relays, the weights tool reports the share of guard, middle, exit, introduction and rendezvous bandwidth those relays hold under the consensus weights, their share of the version 2 directory ring and of the version 3 directories, scaled by the documented number of uploads and fetches; several consensuses are averaged, relays not in a consensus are named, and all relays together have a share of one wherever the role exists.",
  ["inputs"],
  "for every consensus and every set of relays",
  "no tests: the tool needs stem and a consensus",
  ["privcount/tools/compute_fractional_position_weights"],
  [("shares", "privcount/tools/compute_fractional_position_weights get_fractional_weights, get_weighted_bandwidths, get_hsdir_v2_spread")],
  ["figures printed"])

p("C32", "An edited configuration file takes effect whole, or not at all",
  "While a tally server, data collector or share keeper runs, its operator can edit its configuration file and the files it names. After any sequence of edits, once the node reads the file again it has exactly the configuration of a node that starts with that file (options added, changed or removed, defaults included, and a secret named for the node itself before one for all nodes); when the file is not valid, the node keeps every part of the configuration it had and goes on with it.",
  ["inputs", "histories"],
  "for every sequence of valid and invalid edits",
  "the tests start each node once with one configuration",
  ["privcount/tally_server.py", "privcount/data_collector.py", "privcount/share_keeper.py", "privcount/node.py", "privcount/config.py"],
  [("server", "privcount/tally_server.py refresh_config, load_match_config, load_as_prefix_config"),
   ("client", "privcount/data_collector.py refresh_config, do_checkin; privcount/share_keeper.py refresh_config")],
  ["the configuration in effect", "the connections a client makes"])

p("C33", "Times, sizes and summaries shown to operators say what was measured",
  "Operators follow a round through the times, sizes and shortened texts in the logs and status lines. For every period, moment and size: a duration is said exactly to the second (its units, largest first, add up to it, negative ones with a sign), with the date and unix time of the moment it leads to or comes from; a size is in the largest fitting unit, to a tenth; and a shortened text has exactly the allowed length and keeps both ends. No value of these kinds makes a node fail, and a node that stops reports the exit status it was asked for.",
  ["inputs"],
  "for every period, moment, size, text and limit",
  "the tests print a few of them and compare nothing",
  ["privcount/log.py"],
  [("times", "privcount/log.py format_*_time_*, format_period, format_time, format_interval, format_datetime"),
   ("texts", "privcount/log.py format_bytes, summarise_string, summarise_list, stop_reactor")],
  ["the texts in logs and status lines", "the exit status of a process"])

p("C34", "The command line runs exactly what was asked, or refuses",
  "For any order of valid options, the program runs one node of the named kind, with the configuration in the named file (by an absolute path, also for ~ and relative names) or from standard input, logs to the named file (appending) or the screen, at the level asked for and under the name of the node and its identifier; the injector opens exactly the listeners asked for and replays exactly the events within its limits, with or without the recorded pauses, to clients with the password. For wrong, missing or contradictory arguments it runs nothing, exits with status 2 and says so.",
  ["inputs"],
  "for every combination and order of options",
  "the tests run a few fixed command lines",
  ["privcount/tools/privcount", "privcount/inject.py"],
  [("options", "privcount/tools/privcount main, data_collector, tally_server, share_keeper, inject, type_str_path_in, type_str_path_out"),
   ("injector", "privcount/inject.py run_inject, add_inject_args, PrivCountDataInjector.start")],
  ["the node that runs, its configuration and its log", "the listeners and events of the injector", "the exit status"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
