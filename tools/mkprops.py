"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": observe, "hook_needed": None,
        },
    })


prop("C01", "Query retry discipline: what is retried, how often, after what wait",
     "A query sends its request at most retry_count+1 times; only connection errors, retryable device errors and timeouts are retried, while authentication failures and every other error end the query at once, and when the attempts are used up the error of the last attempt is the one raised. "
     "The transport is reset after every failed attempt except a plain connection error, and the protocol waits one second before retrying after a timeout (both protocol families) and after a retryable error (SMART family). "
     "A success at any attempt returns that attempt's answer and stops.",
     ["fault_sequences", "inputs"],
     "Every sequence of attempt outcomes (answer, connection error, retryable error, timeout, authentication error, device error, generic error), every retry_count, for both protocol families and for queries issued back to back on the same protocol.",
     "Tests pin a handful of homogeneous sequences (always fail, fail n then succeed) for each transport; mixed sequences, the waits between attempts and the reset placement are not asserted.",
     ["kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py", "kasa/exceptions.py"],
     [("retry loop with per-class except clauses", "IotProtocol._query / SmartProtocol._query")],
     ["transport.send/reset calls", "virtual clock", "result or exception of protocol.query"])

prop("C02", "Concurrent queries are serialized and every caller gets its own answer",
     "However many tasks query one device at the same time, the requests of different queries never interleave on the transport: a query's exchanges (including its retries and follow-up pages or batches) are contiguous, waiting queries are served in arrival order, and each caller receives exactly the answer produced for its own request. "
     "Cancelling a waiting or running query never blocks, corrupts or answers another caller, and the queue keeps moving.",
     ["schedules", "fault_sequences"],
     "Every interleaving of a few concurrent queries on one protocol object with every placement of response delays, failures and task cancellations.",
     "Tests issue queries one at a time; nothing exercises overlapping callers or cancellation while another query waits.",
     ["kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
     [("per-protocol query lock", "IotProtocol.query / SmartProtocol.query")],
     ["transport.send entry and exit", "results per caller"])

prop("C03", "XOR TCP connections are reused only while healthy and never go stale",
     "The legacy TCP transport keeps one connection open and reuses it while exchanges succeed; after any failed, timed-out, malformed or cancelled exchange that connection is closed and never written to or read from again, so an answer to an earlier request is never returned for a later one. "
     "At most one connection is open at a time, close() leaves none open, and connect failures are classified: refused or unreachable host is final, a timeout is a timeout, everything else is retryable.",
     ["fault_sequences", "schedules", "crash_points"],
     "Every sequence of connect outcomes and exchange faults (drop, short read, garbage, late reply, hang, cancellation at connect, drain or read) over several requests.",
     "Tests mock open_connection with fixed outcomes and check call counts; late replies on a reused connection and cancellation at each await are sampled at one point each.",
     ["kasa/transports/xortransport.py"],
     [("close on every failure path", "XorTransport.send"), ("single connection reuse", "XorTransport._connect")],
     ["asyncio.open_connection", "stream reads and writes", "writer.close"])

prop("C04", "KLAP session discipline: handshake, sequence numbers, expiry, credentials",
     "A KLAP request is only ever sent inside a session whose two handshake stages both completed and which has not expired (lifetime announced by the device, or one day, minus a 20 minute margin), carries that session's cookie and key, and within a session sequence numbers start one above the derived value and increase by exactly one per request (a cancelled request spends its number), never repeating. "
     "A session is accepted only if the device proved knowledge of the user's, a known default, or the blank credentials (handshake stage two answers with the same ones); otherwise an authentication error is raised and no further request is sent. "
     "A security rejection, any error other than a lost connection, a reset or expiry forces a fresh handshake before the next request, and a transport built from the exported credentials hash authenticates exactly like one built from the credentials, for both KLAP versions.",
     ["fault_sequences", "histories", "configurations"],
     "Every sequence of device behaviours (proof kind, HTTP status of each stage, transport errors, garbage, expiry) over several requests, for KLAP v1/v2 and credentials or credentials-hash configurations.",
     "Tests replay one handshake and a fixed sequence-number check; no test mixes expiry, 403, failed second stages and resets, nor checks what is sent after them.",
     ["kasa/transports/klaptransport.py", "kasa/httpclient.py", "kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py"],
     [("handshake state and expiry", "KlapTransport.perform_handshake / send"), ("sequence counter", "KlapEncryptionSession.encrypt")],
     ["HTTP posts (url, params, cookies, body)", "query results"],
     [("session", "cookie, seeds, auth hash, sequence, expiry", "KlapTransport")])

prop("C05", "AES session discipline: handshake, login, token, expiry, fallback login",
     "An encrypted (securePassthrough) request is only sent in a session established by a completed handshake followed by a successful login that is unexpired, with that session's key, cookie and token; the login itself is sent before any other request of the session. "
     "The built-in default credentials are tried only after the device rejected the user's credentials with a login error, and then on a fresh handshake; if both fail the query raises an authentication error and the next query starts again from a handshake. "
     "Session expiry, an authentication error code or a reset discards the session, a retryable error leads to a new attempt, and answers are always decrypted with the key of the session they belong to.",
     ["fault_sequences", "histories"],
     "Every sequence of per-stage device outcomes (success, HTTP status, each class of error code, plain transport errors, expiry) over several queries.",
     "Tests check each stage with one fixed error at a time; multi-step histories (expiry then login error then retry) are not covered.",
     ["kasa/transports/aestransport.py", "kasa/protocols/smartprotocol.py"],
     [("transport state machine", "AesTransport.send / perform_login / perform_handshake")],
     ["HTTP posts", "query results"])

prop("C06", "Camera secure session: digest login, sequence and tag discipline",
     "A camera request is only sent over a session obtained from a completed two-step digest login (or the plain login for devices that only offer it), where the device's nonce confirmation matched the user's or the default camera credentials; otherwise an authentication error is raised and no request is sent. "
     "Within a session every secure request carries the current sequence number, which starts at the value the device announced and grows by exactly one, and a tag computed for that sequence number; after an authentication failure, a rejected session or a reset the next request starts with a new login. "
     "A locked-out device is reported as a device error rather than retried.",
     ["fault_sequences", "histories", "configurations"],
     "Every sequence of device behaviours at each login step and request (proof kind, hash algorithm, error codes, HTTP status), over several queries, with credentials, credentials hash or none.",
     "Tests cover single-shot logins with a fixed fake; sequences of failures and re-logins and the tag/seq relation across them are not asserted.",
     ["kasa/transports/sslaestransport.py", "kasa/protocols/smartcamprotocol.py"],
     [("two-step handshake", "SslAesTransport.perform_handshake*"), ("tag/seq generation", "SslAesTransport.send_secure_passthrough")],
     ["HTTP posts (url, headers, body)", "query results"])

prop("C07", "Token login sessions (HTTPS token transport) never send before login",
     "Over the HTTPS token transport a request is only sent with the token of a successful, unexpired login; the first request, an expired session, an authentication error and a reset all force a login first. "
     "The default credentials are tried only after the user's credentials were refused with a login error; if those fail too the query raises an authentication error and nothing is sent.",
     ["fault_sequences", "histories"],
     "Every sequence of login and request outcomes over several queries, with and without expiry.",
     "Tests check one login and one error at a time.",
     ["kasa/transports/ssltransport.py"],
     [("login state", "SslTransport.send / perform_login")],
     ["HTTP posts", "query results"])

prop("C08", "Every requested method is answered exactly once, whole and correctly paired",
     "A SMART query for any set of methods returns exactly those methods, each paired with the device's own answer to that method (result, or its error code when several methods were asked), whatever the batch size, the number of methods, the order of answers, unanswered or partially failed batches, and methods that cannot be batched (commands for child devices are single requests and the subject of C09). "
     "No request carries more methods than the configured batch size nor an empty batch, list answers are completed across pages without loss or duplication and paging always terminates, and a device that cannot handle batches is switched to single requests and still gets all methods answered.",
     ["inputs", "fault_sequences"],
     "Every set of requested methods up to a few batches, every batch size, every pattern of per-method success, error, missing answer, missing method name, list paging (including short and empty pages) and whole-batch rejection, for the SMART and camera protocol variants.",
     "Tests use fixed method lists and a well-behaved fake; batch sizes of one, forced-single methods and partial answers are sampled in isolation.",
     ["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
     [("batch splitting and re-query of missing answers", "SmartProtocol._execute_multiple_query"), ("paging", "SmartProtocol._handle_response_lists")],
     ["requests on the transport", "query result"])

prop("C09", "Child commands are routed to and answered by exactly that child",
     "Every query issued through a child device (hub child, strip socket or camera-hub child) reaches the parent wrapped with that child's device id and only that child's requests, and the caller gets back that child's own answers, unwrapped and paired by method. "
     "Per-method errors of a multi-method child query are returned as error codes for those methods only, while a single failing request or a failing envelope raises an error.",
     ["inputs", "schedules", "fault_sequences"],
     "Every mix of children and method sets, with per-method errors, envelope errors and concurrent queries through different children of one parent.",
     "Tests route one request to one child; several children with concurrent and partially failing multi-method queries are not covered.",
     ["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py", "kasa/smart/smartchilddevice.py", "kasa/smartcam/smartcamchild.py"],
     [("child protocol wrapper", "_ChildProtocolWrapper / _ChildCameraProtocolWrapper")],
     ["requests on the parent transport", "child query results"])

prop("C10", "A SMART update isolates failing modules and recovers",
     "Updating a SMART device succeeds as long as its basic device information can be read: a module whose query fails keeps failing alone (reading it raises an error, every other module keeps fresh data), is retried with a growing delay (given up, that is no longer polled, only after ten failures in a row) and becomes usable again after its next successful answer. "
     "Modules that poll on an interval are queried when that interval has elapsed, not sooner, and keep their last data in between; explicitly requested refreshes happen on the next update. "
     "If an update fails as a whole the error is raised and a later update on the same device object works completely.",
     ["histories", "fault_sequences"],
     "Every history of updates at arbitrary times with every pattern of per-method failures and whole-query failures, including on the very first update.",
     "Tests exercise one failing module for one kind of device and never fail the first update and then continue.",
     ["kasa/smart/smartdevice.py", "kasa/smart/smartmodule.py", "kasa/smart/smartchilddevice.py"],
     [("per-module error accounting", "SmartModule._should_update / update backoff"), ("individual re-query", "SmartDevice._handle_modular_update_error")],
     ["methods queried per update", "module data / errors after update"])

prop("C11", "A hub's children always mirror what the hub reports",
     "After every update a hub's child list is exactly the supported children the hub currently reports: new ones appear (initialised and usable), vanished ones disappear, ones that stay keep their object identity, and each child's basic information is the one reported in that update. "
     "A child that cannot be initialised or is unsupported is left out without affecting its siblings or the hub.",
     ["histories", "fault_sequences"],
     "Every history of child sets reported by the hub across updates (add, remove, re-add, reorder, change), with supported and unsupported categories and initialisation failures, for SMART and camera hubs.",
     "Tests add or remove children once; sequences with failures and re-appearance are not covered.",
     ["kasa/smart/smartdevice.py", "kasa/smart/smartchilddevice.py", "kasa/smartcam/smartcamdevice.py", "kasa/smartcam/smartcamchild.py", "kasa/smart/modules/childdevice.py"],
     [("child creation and deletion", "SmartDevice._create_delete_children")],
     ["device.children after update", "requests on the transport"])

prop("C12", "Discovery reports every responding host once, correctly, and always ends",
     "Whatever datagrams arrive in whatever order, discovery ends within its timeout, closes its socket, sends no more probe rounds than configured, and each host that answers yields exactly one outcome - a device, an unsupported-device report or an invalid-response report - decided by its first reply from a discovery port. "
     "The matching callback runs once per host and has finished before discovery returns; the result contains exactly the devices found. "
     "Single-host discovery returns that host's device, raises the unsupported or discovery error that host produced, or raises a timeout when it stayed silent.",
     ["schedules", "inputs", "fault_sequences"],
     "Every arrival order and time of valid, unsupported, malformed and duplicate datagrams from several hosts and both discovery ports, including late ones, socket errors and slow callbacks.",
     "Tests feed one datagram per case into the protocol object; orders, duplicates, late arrivals and slow callbacks are not combined.",
     ["kasa/discover.py"],
     [("seen-host set and outcome classification", "_DiscoverProtocol.datagram_received"), ("completion", "_DiscoverProtocol.wait_for_discovery_to_complete")],
     ["datagrams sent", "callbacks", "Discover.discover / discover_single result"])

prop("C13", "Connecting never leaks: failed attempts are closed, first success wins",
     "Connecting to a device either returns an updated device whose connection works or raises with everything it opened closed again. "
     "Trying all known connection kinds for a host attempts each distinct kind at most once, one after the other, reports each attempt once to the callback with its outcome, closes the connection of every attempt before the next one begins, stops at and returns the first one that works (as an updated device that reconnects when used), and returns nothing when none does. A session object supplied by the user is used for all of it and never closed.",
     ["fault_sequences", "crash_points"],
     "Every assignment of outcomes (success, unsupported, connection, authentication or other errors, cancellation) to the connection attempts.",
     "Tests let exactly one candidate succeed and never check that the others were closed.",
     ["kasa/discover.py", "kasa/device_factory.py", "kasa/device.py"],
     [("close on failure", "device_factory.connect / Discover.try_connect_all")],
     ["network endpoints opened and closed", "callbacks", "result"])

prop("C14", "A device configuration survives saving and reloading unchanged",
     "A device configuration exported to a dictionary (also via JSON) and loaded again yields an equal configuration that connects in exactly the same way: same protocol, address, port, timeouts, batch size, and authentication accepted by exactly the same devices. "
     "Exporting with a credentials hash (or without credentials) never contains the user name or password in clear and, when a hash is supplied, the reloaded configuration authenticates as the original did; a dictionary lacking a required field or naming an unknown family or encryption type is refused with an error.",
     ["inputs", "configurations"],
     "Every combination of configuration fields, credential forms and export options, and malformed dictionaries.",
     "Tests round-trip a few fixture configurations and do not compare what is sent on the wire after reloading.",
     ["kasa/deviceconfig.py", "kasa/credentials.py", "kasa/transports"],
     [("serialisation", "DeviceConfig.to_dict / from_dict / to_dict_control_credentials"), ("hash export", "transport.credentials_hash")],
     ["exported dictionary", "first wire messages of the reconnect"])

prop("C15", "Protocol, transport and device class follow from the connection parameters",
     "The protocol and transport chosen for a device are a fixed function of device family, encryption type and HTTPS flag, and an unknown combination is reported as unsupported rather than guessed; connection parameters derived from a discovery reply lead to the same choice on reconnect. "
     "The device class is a fixed function of what the device reports about itself, with unknown SMART families falling back to the generic SMART class, unknown legacy types to a plug, and legacy kinds that cannot be supported (cameras) reported as unsupported.",
     ["configurations", "inputs"],
     "All combinations of family, encryption, https, login version and strictness, and all reported device types.",
     "Tests enumerate supported fixtures only; unsupported and odd combinations are sampled.",
     ["kasa/device_factory.py", "kasa/deviceconfig.py", "kasa/discover.py"],
     [("decision table", "device_factory.get_protocol / get_device_class_from_family")],
     ["classes of returned objects", "errors"])

prop("C16", "Feature values are validated before anything reaches the device",
     "Setting a numeric feature to something that is not a number or outside its advertised range (boundaries included in the range), a choice feature to a choice it does not offer, or setting a read-only feature always raises an error and sends nothing to the device; a valid value is passed on to the device's setter exactly once and unchanged, and an error of the setter reaches the caller. "
     "Features exposed by a device describe themselves consistently: numeric ranges are ordered and describe a numeric value, choices are non-empty, sensors are read-only, and switches and binary sensors have truth values.",
     ["inputs", "configurations"],
     "All feature kinds with values below, at, between and above bounds, non-numbers, unknown choices, unset ranges and dynamic ranges.",
     "Tests check a dummy feature with a few values and do not enumerate boundaries or dynamic ranges.",
     ["kasa/feature.py"],
     [("validation", "Feature.set_value")],
     ["setter invocations", "errors"])

prop("C17", "Light commands leave the lamp in the commanded state and are read back",
     "After any sequence of light commands (on, off, brightness, colour temperature, colour, combined state) each followed by an update, the state the library reports equals the lamp's own state and the effect of the last command on each attribute: a command changes only what it names plus what the device couples to it, setting brightness 0 turns the lamp off, and values outside the supported range raise an error and leave the lamp untouched.",
     ["histories", "inputs"],
     "Every short sequence of light commands with boundary values on dimmable, tunable-white and colour lamps of the SMART and legacy families, legacy dimmers and light strips.",
     "Tests issue one command at a time against recorded fixtures that do not model the lamp's coupling of attributes.",
     ["kasa/smart/modules/light.py", "kasa/smart/modules/brightness.py", "kasa/smart/modules/color.py", "kasa/smart/modules/colortemperature.py", "kasa/iot/iotbulb.py", "kasa/iot/iotdimmer.py", "kasa/iot/modules/light.py"],
     [("command building", "Light.set_state / set_brightness / set_hsv / set_color_temp")],
     ["requests on the transport", "light properties after update"])

prop("C18", "Network and device faults surface only as classified library errors",
     "Whatever a device or the network does during an exchange - connection failures, timeouts, unexpected HTTP status, undecryptable or malformed answers, unknown error codes - a query ends with an answer or with a library error (KasaException family), never with another exception type and never by hanging. "
     "Connection losses and timeouts are classified as such (and hence retried), a client that saw a connection-level error starts each following request at least a quarter of a second after the last such error or completed exchange, and cancelling a query propagates as cancellation.",
     ["fault_sequences", "inputs"],
     "Every transport, every exchange stage (handshakes, login, request), every kind of fault injected there.",
     "Tests inject faults at a few stages for one transport each; the real timeout of the HTTP library is not among them.",
     ["kasa/httpclient.py", "kasa/transports", "kasa/protocols"],
     [("error mapping", "HttpClient.post"), ("stage error handling", "*Transport.send")],
     ["exception type of query", "virtual clock between posts"])

prop("C19", "A legacy device update gathers every module's data",
     "Updating a legacy device asks for the system information first and then for every module the device supports, possibly split over several requests, and merges the answers so that each module sees exactly its own part of the device's current answers. "
     "Modules the device reports as unsupported are dropped from later requests without affecting others, and reading data before the first update raises an error.",
     ["configurations", "fault_sequences", "histories"],
     "All mixes of supported and unsupported modules, request size limits and update histories for plugs, bulbs, dimmers, strips and light strips.",
     "Tests run over recorded fixtures with everything answered.",
     ["kasa/iot/iotdevice.py", "kasa/iot/iotmodule.py", "kasa/iot/iotbulb.py"],
     [("request splitting and merging", "IotDevice._modular_update")],
     ["requests on the transport", "module data"])

prop("C20", "Legacy strip sockets are isolated from each other",
     "Commands sent through one socket of a legacy strip carry exactly that socket's id and change only that socket, while switching the whole strip leaves every socket in the commanded state; after an update each socket reports its own on/off state, alias, usage and energy readings, never another socket's or the strip's, and the strip reports the sums of its sockets.",
     ["histories", "configurations"],
     "All sequences of per-socket and whole-strip commands and updates with distinct per-socket data.",
     "Tests use fixtures in which all sockets return the same data.",
     ["kasa/iot/iotstrip.py", "kasa/iot/iotdevice.py"],
     [("child context", "IotStripPlug._create_request"), ("per-socket update", "IotStripPlug._update / StripEmeter")],
     ["requests on the transport", "socket properties after update"])

prop("C21", "Firmware updates start only when known to be available and always end",
     "A firmware update is started only after a check established that one is available, is started once, reports progress in the order the device reports it, tolerates lost status answers while the device is busy or rebooting, and ends - finishing when the device reports completion or failure, or with an error after its time limit.",
     ["fault_sequences", "histories"],
     "Every sequence of update-availability answers and status answers, including lost ones, up to the time limit.",
     "Tests drive two fixed progress sequences.",
     ["kasa/smart/modules/firmware.py", "kasa/smartcam/modules"],
     [("update loop", "Firmware.update")],
     ["requests on the transport", "progress callbacks", "result"])

prop("C22", "Pairing adds exactly the detected devices and unpairing removes exactly one",
     "Pairing starts a scan, waits the requested time, then asks for what was detected in the supported categories and adds exactly the devices the hub detected, returning those that actually became children; when nothing is detected, or the hub refuses a step, nothing is added. Unpairing removes exactly the named child.",
     ["histories", "fault_sequences"],
     "Every set of detected devices and every subset that the hub then accepts, for SMART and camera hubs.",
     "Tests use one fixed set of detected devices.",
     ["kasa/smart/modules/childsetup.py", "kasa/smartcam/modules/childsetup.py"],
     [("pair", "ChildSetup.pair / unpair")],
     ["requests on the transport", "returned list", "children"])

prop("C23", "The reported switch-on time is stable while on and absent while off",
     "While a device stays on, the reported switch-on time does not wander with polling jitter: it follows the device's own on-time only when that moves by more than five seconds, in either direction; when the device is off there is none, and after it was off the next reported time is that of the new on-period.",
     ["histories"],
     "Every history of on/off changes, polls and jitter of the device's on-time counter and clock.",
     "Tests check two polls of one device.",
     ["kasa/smart/smartdevice.py", "kasa/iot/iotdevice.py", "kasa/iot/iotstrip.py"],
     [("cached on_since", "on_since properties")],
     ["on_since after each update"])

prop("C24", "Light effects and presets apply and report what was selected",
     "Selecting an offered light effect makes the device run exactly that effect and the library report it as active, selecting none stops it, and an unknown effect is rejected with nothing sent; selecting, saving and listing presets refer to the same slots the device stores, and a preset is reported active exactly when the lamp's state matches it.",
     ["histories", "inputs"],
     "All sequences of effect selection, preset selection and saving, and ordinary light commands, on SMART bulbs, SMART strips and legacy strips and bulbs.",
     "Tests set one effect or preset per device fixture.",
     ["kasa/smart/modules/lighteffect.py", "kasa/smart/modules/lightstripeffect.py", "kasa/smart/modules/lightpreset.py", "kasa/iot/modules/lighteffect.py", "kasa/iot/modules/lightpreset.py"],
     [("effect state", "LightEffect.set_effect"), ("preset slots", "LightPreset.set_preset / save_preset")],
     ["requests on the transport", "effect and preset properties"])

prop("C25", "Module settings are written whole, validated, and read back",
     "For the configurable SMART modules (alarm, auto-off, light transition, target temperature, fan, LED, child lock, contact/motion settings, vacuum cleaning settings, power protection) a setter changes exactly the setting it names and leaves the sibling settings of the same module as the device last reported them; the value read back after an update is the one set, and out-of-range or unknown values raise an error with nothing sent.",
     ["histories", "inputs"],
     "All short sequences of setter calls with boundary values followed by updates.",
     "Tests call each setter once and only assert the call, not the resulting device state or the preserved siblings.",
     ["kasa/smart/modules"],
     [("setters", "kasa/smart/modules/*.py")],
     ["requests on the transport", "module properties"])

prop("C26", "Secrets and personal identifiers are masked in debug logs",
     "With redaction on, what is written to the debug log of a device's answers (queries, discovery, errors) never contains the network names, aliases, nicknames, owner names, locations, setup codes or tokens they carry in known fields, and of device identifiers and MAC addresses at most the part that redaction keeps on purpose; masking never changes the answer given to the caller.",
     ["inputs"],
     "Every device answer structure.",
     "Tests check the redaction of a few fixtures.",
     ["kasa/protocols"],
     [("redactors", "redact_data")],
     ["log records"])

prop("C27", "Reported readings are the device's own, whole and current",
     "After every successful update each measured or informational reading of a device (power, energy, voltage, temperature, humidity, battery, contact, motion, leak, thermostat mode, vacuum status, records and consumables, name, address, signal, location, time) tells what that very device reported in that update, in the documented unit; what the device does not report is told as absent, unknown codes are told as unknown, and neither another device nor anything that happens before the next update changes what is told.",
     ["inputs", "histories"],
     "Every combination of reported values, absent values and unknown codes, over changes, updates and failed updates of several devices used side by side.",
     "Tests compare properties with the same recorded values the code reads them from, for one device at a time.",
     ["kasa/smart/modules", "kasa/smartcam/modules", "kasa/iot/modules", "kasa/emeterstatus.py", "kasa/smart/smartdevice.py", "kasa/iot/iotdevice.py"],
     [("readings", "properties of the modules"), ("energy conversion", "EmeterStatus"), ("post update hooks", "_post_update_hook")],
     ["module and device properties", "feature values"])

prop("C28", "Administrative commands act on the device exactly as asked",
     "Every administrative command (rename, set the clock and time zone, scan and join networks, change the account, reboot, factory reset, delete or switch schedule rules, erase statistics) reaches the addressed unit once with exactly the meaning that the caller gave it: a clock set to an aware time shows that instant in that time zone, a naive time is meant in the device's own zone, names, network names, keys and passwords arrive unchanged, and a command that the device refuses, or that it cannot do, ends with an error and changes nothing; afterwards the library tells what the device then reports.",
     ["inputs", "histories"],
     "Every sequence of administrative commands with any argument (time zones with and without daylight saving, unnamed zones, non-ASCII texts), changes made elsewhere, refusals and lost answers, on SMART, camera and legacy devices.",
     "Tests check the request that a few calls produce, or mock the clock, and set no zone on a device whose reaction is modelled.",
     ["kasa/smart/smartdevice.py", "kasa/smart/modules/time.py", "kasa/smartcam/smartcamdevice.py", "kasa/smartcam/modules/time.py", "kasa/iot/iotdevice.py", "kasa/iot/iottimezone.py", "kasa/iot/modules/time.py", "kasa/iot/modules/rulemodule.py", "kasa/iot/modules/usage.py"],
     [("device commands", "set_alias, wifi_scan, wifi_join, update_credentials, reboot, factory_reset"), ("clock", "Time.set_time"), ("zones of legacy devices", "iottimezone.py"), ("rules", "RuleModule")],
     ["state of the device after each call", "properties after update()", "exceptions"])

prop("C29", "The command line tool does to the chosen device exactly what its arguments say",
     "A run of the kasa command connects to the device that the options name, with the given port, timeouts, credentials and connection parameters, does what the command says to the addressed unit (the device or the chosen child) and to nothing else, and disconnects; it ends with exit code 0 only if that was done, and when it ends with an error (unknown or ambiguous device, child or argument, declined confirmation, device refusing) nothing was changed; what it prints as the answer, as text or as one JSON document with --json, is what the device has.",
     ["inputs", "histories"],
     "Every sequence of runs over the connection options (host, alias, type, encryption, family, port, credentials, timeouts), ways to choose a child and commands with valid and invalid arguments, on plugs, strips, bulbs and vacuums of both generations, with refusing and missing devices.",
     "Tests run single commands with the device injected into the command line tool and mocks for the calls.",
     ["kasa/cli/main.py", "kasa/cli/common.py", "kasa/cli/device.py", "kasa/cli/light.py", "kasa/cli/feature.py", "kasa/cli/discover.py", "kasa/cli/time.py", "kasa/cli/wifi.py", "kasa/cli/schedule.py", "kasa/cli/usage.py", "kasa/cli/vacuum.py"],
     [("choice of the device", "kasa/cli/main.py cli"), ("choice of the child", "pass_dev_or_child"), ("exit codes", "CatchAllExceptions, error"), ("JSON", "json_formatter_cb")],
     ["exit code", "output", "state of the device after each run", "open connections"])

pathlib.Path(__file__).parent.parent.joinpath("properties.jsonl").write_text(
    "".join(json.dumps(p) + "\n" for p in P))
print(len(P))
