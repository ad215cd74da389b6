"""The properties (see meta.py)."""


def define(prop):
    # ------------------------------------------------------------------ wire
    prop("P01", "Legacy TCP transport: exact framing and no stale or mixed responses",
         """Over the legacy port-9999 transport every request reaches the device as one length-prefixed
         frame that decodes (with the documented XOR autokey cipher) to exactly the JSON the caller asked
         for, and the caller gets exactly the JSON object the device answered to that request, however
         the byte stream is segmented. After a timeout, a cancellation, a truncated or broken stream or a
         reconnect, no later request is ever answered with bytes belonging to an earlier one, and a
         failed connection is closed rather than reused.""",
         ["inputs", "histories", "fault_sequences"],
         "every JSON request/response, every segmentation of the stream, every sequence of queries with "
         "faults (refused connect, reset, truncation, stall, late answer, cancel) at any point",
         "Unit tests feed a handful of canned payloads through mocked streams; they never combine "
         "segmentation, faults and a following query on the same protocol object.",
         ["kasa/transports/xortransport.py", "kasa/protocols/iotprotocol.py"],
         [("XorEncryption.encrypt/decrypt and the kasa_crypt replacement", "kasa/transports/xortransport.py"),
          ("XorTransport.send/_execute_send/close_without_wait", "kasa/transports/xortransport.py"),
          ("retry loop and reset on failure", "kasa/protocols/iotprotocol.py")],
         ["bytes received by an in-memory TCP peer", "return value of protocol.query"],
         "Hypothesis: differential vs independent XOR codec + model-based TCP peer with fault injection",
         "Randomised histories against an independent codec and peer, in virtual time; trusts asyncio streams.",
         """Generated JSON values round-trip between kasa's codec (both the C extension that is used and the
         pure-python function) and a 10-line reference codec; generated histories of queries against an
         in-memory TCP device that segments, delays, truncates or resets at generated points; every
         response carries a tag of the request, so a stale or mixed answer is visible.""",
         level="fault_enumeration")

    prop("P02", "KLAP transport interoperates with an independent device and keys never go stale",
         """With matching credentials (configured, device-default or blank) the KLAP transport completes the
         two-step handshake and every request is delivered, decryptable and authenticated under the seeds,
         sequence number and session cookie of the current session, and the caller receives exactly the
         plaintext answered. With non-matching credentials, a forged handshake answer or an answer that cannot be
         decrypted with the current session, no data is returned and a library error
         (authentication error for a seed-hash mismatch) is raised. A session that has expired or was
         refused by the device with 403 is replaced by a fresh handshake before any further request.""",
         ["inputs", "histories", "fault_sequences"],
         "every credential pair, seed, JSON payload, and sequence of requests, expiries, 403s, forged or "
         "failing answers",
         "Tests mock HttpClient.post for a few fixed byte strings; expiry, 403 and forged answers are not "
         "combined, and nothing checks the ciphertext against an independent implementation.",
         ["kasa/transports/klaptransport.py", "kasa/httpclient.py"],
         [("perform_handshake1/2, handshake_seed_auth_hash, generate_auth_hash (v1, v2)",
           "kasa/transports/klaptransport.py"),
          ("KlapEncryptionSession key/iv/sig derivation, seq, encrypt/decrypt",
           "kasa/transports/klaptransport.py"),
          ("session expiry and 403 handling in send", "kasa/transports/klaptransport.py")],
         ["HTTP requests seen by an in-memory reference device", "value or error of transport.send"],
         "Hypothesis: model-based history vs independently written KLAP server (virtual time)",
         "Reference server written from the protocol description in the module docs; crypto primitives "
         "(hashlib, AES) are shared and trusted.",
         """A KLAP v1/v2 server is written from the published protocol (hashes, key derivation, AES-CBC,
         signature, sequence numbers, cookies, session timeout). Generated histories of sends, clock jumps,
         403s, corrupted handshakes/answers and credential kinds run through KlapTransport(V2) and
         SmartProtocol/IotProtocol; the server rejects anything it cannot authenticate and tags answers.""",
         level="fault_enumeration")

    prop("P03", "AES securePassthrough transport logs in and exchanges data exactly",
         """The AES transport completes key exchange and login with any valid credentials (either login
         version) or with a stored credentials hash, and every request then reaches the device as exactly
         the caller's JSON and every answer is returned as exactly the device's JSON. When the device
         reports an expired session, a transport-level error code or a failed login, the transport raises the
         matching library error, forgets the session and negotiates a new one before the next
         request; it retries with the device's default credentials only after a login failure with the
         configured ones.""",
         ["inputs", "histories", "fault_sequences"],
         "every credential pair/hash, payload, login version, and sequence of sends with expiries and error "
         "codes at handshake, login or request time",
         "Tests run one mock device with a fixed set of error codes and payloads; they do not interleave "
         "expiry, errors and credential fallback, nor arbitrary unicode credentials and payloads.",
         ["kasa/transports/aestransport.py", "kasa/httpclient.py"],
         [("perform_handshake, KeyPair, AesEncyptionSession", "kasa/transports/aestransport.py"),
          ("perform_login/try_login with default-credential fallback", "kasa/transports/aestransport.py"),
          ("session expiry, _handle_response_error_code", "kasa/transports/aestransport.py")],
         ["HTTP requests seen by an in-memory reference device", "value or error of transport.send"],
         "Hypothesis: model-based history vs independently written securePassthrough server",
         "Reference server built from the protocol; RSA/AES primitives trusted.",
         """An independent securePassthrough server (RSA key exchange, AES-CBC, login v1/v2) drives generated
         histories in virtual time: sends, clock jumps past the session timeout, error codes at each
         layer, wrong configured credentials with default credentials accepted or not.""",
         level="fault_enumeration")

    prop("P04", "Camera (SSL-AES) transport authenticates and never sends secrets or stale data",
         """Against a camera that uses the encrypted digest login, the transport verifies the camera's proof
         before proving its own knowledge of the password, accepts either password-digest variant, falls back to the
         default user name (and, without configured credentials, the default password), and afterwards every request is delivered exactly, with the session's key, a
         strictly increasing sequence number and the matching tag, and the caller receives exactly the
         decrypted answer. Wrong credentials, a lock-out, a device that cannot prove itself or an expired
         session give the documented library error (and a new handshake before the next request), never
         data.""",
         ["inputs", "histories", "fault_sequences"],
         "every credential pair, nonce, JSON payload and every sequence of requests, session invalidations, "
         "lock-outs and error codes",
         "Tests use one mock camera with fixed wordings; no history of invalidation followed by requests, no "
         "generated payloads or passwords, no independent check of tags and sequence numbers.",
         ["kasa/transports/sslaestransport.py", "kasa/httpclient.py"],
         [("perform_handshake1/2 and digest checks", "kasa/transports/sslaestransport.py"),
          ("send_secure_passthrough: seq, tag, session loss", "kasa/transports/sslaestransport.py")],
         ["HTTP requests seen by an in-memory reference camera", "value or error of transport.send"],
         "Hypothesis: model-based history vs independently written camera login/passthrough server",
         "Reference camera written from the protocol; AES primitive trusted.",
         """An independent camera (sha256/md5 password variants, encrypt_type 3, lsk/ivb key derivation, seq,
         Tapo_tag) runs generated histories of sends and faults; it rejects a wrong digest, tag or
         non-increasing sequence number and records every byte received so leaking the password is visible.""",
         level="fault_enumeration")

    prop("P05", "Token-login and Linkie transports deliver requests and recover sessions",
         """The TLS token-login transport logs in with the hashed password (configured, stored hash or, only
         after a login failure, the device default), sends every request as exactly the caller's JSON with
         the current token and returns exactly the device's JSON, logging in again before the next request
         whenever the session expired or an error ended it. The Linkie camera transport sends exactly the
         caller's JSON through its base64/XOR encoding with basic authentication and returns exactly the
         decoded answer. Error answers of the token-login transport raise library errors that carry the device's error code.""",
         ["inputs", "histories", "fault_sequences"],
         "every payload, credential pair or hash, and every history of sends, expiries, token losses and "
         "error answers",
         "Tests exercise single sends with one mock; they do not generate payloads, unknown error codes or "
         "histories crossing session loss.",
         ["kasa/transports/ssltransport.py", "kasa/transports/linkietransport.py"],
         [("try_login/send_request/_session_expired", "kasa/transports/ssltransport.py"),
          ("LinkieTransportV2 encrypt/decrypt and basic auth", "kasa/transports/linkietransport.py")],
         ["HTTP requests seen by in-memory reference devices", "value or error of transport.send"],
         "Hypothesis: model-based history vs independent token-login and Linkie servers",
         "Reference servers written from the protocol; XOR/base64 re-implemented.",
         """Independent servers check URL, headers, token, body; generated histories as for P03.""",
         level="fault_enumeration")

    prop("P06", "A stored credentials hash is equivalent to the credentials it came from",
         """For every protocol that exports a credentials hash, connecting with only that hash authenticates
         to exactly the devices that the original username and password authenticate to, and exports the same
         hash again; different credentials never become interchangeable. The KLAP, AES and camera transports export no hash when no
         usable credentials were given, and the plain username and password never appear in the saved
         configuration when the hash is used instead.""",
         ["inputs", "configurations"],
         "every username/password (any unicode, empty parts), every transport",
         "Tests check one or two literal hashes; the equivalence has to hold for all strings and every "
         "transport.",
         ["kasa/transports/klaptransport.py", "kasa/transports/aestransport.py",
          "kasa/transports/sslaestransport.py", "kasa/transports/ssltransport.py",
          "kasa/transports/linkietransport.py", "kasa/credentials.py", "kasa/device.py"],
         [("credentials_hash on each transport", "kasa/transports/*.py"),
          ("Device.config credentials_hash handling", "kasa/device.py")],
         ["credentials_hash property", "success/failure against reference servers"],
         "Hypothesis: metamorphic (login with hash vs with credentials) against reference servers",
         "As P02-P05.",
         """Generated credential pairs: transport A built from credentials, transport B from A's hash; both run
         against reference servers provisioned with generated (equal or different) credentials; outcomes
         and wire-visible authentication must agree.""")

    prop("P07", "Device and network failures surface only as the documented error classes",
         """Whatever a device answers or the network does - any HTTP status, malformed or truncated bytes, any
         known or unknown error code, timeouts, resets - a query of a protocol object raises only the library's own exceptions:
         timeouts as TimeoutError, authentication-related codes as AuthenticationError, other device codes
         as DeviceError (or its retryable subclass) carrying that code, and everything else as KasaException. A failing query
         never returns partial data as if it were a success.""",
         ["inputs", "fault_sequences"],
         "every byte string or JSON value as an answer, every error code, every client exception, in every "
         "transport and at every protocol step",
         "Tests sample a few aiohttp exceptions and codes; arbitrary answers at each step are out of reach "
         "for hand-written cases.",
         ["kasa/exceptions.py", "kasa/httpclient.py", "kasa/protocols/smartprotocol.py",
          "kasa/protocols/iotprotocol.py", "kasa/protocols/smartcamprotocol.py",
          "kasa/transports/"],
         [("exception hierarchy and code lists", "kasa/exceptions.py"),
          ("HttpClient.post exception mapping", "kasa/httpclient.py"),
          ("_handle_response_error_code", "kasa/protocols/smartprotocol.py, kasa/transports/*.py")],
         ["exception type/error_code raised from protocol.query or transport.send"],
         "Hypothesis fuzzing of device answers and client faults at every protocol step",
         "Fuzzing with structure-aware mutation of valid answers; no claim beyond generated answers.",
         """Structure-aware fuzz: a reference server answers correctly except at one generated step, where the
         answer is mutated (status, bytes, JSON shape, error code, client exception); the raised exception
         is compared with the documented taxonomy.""",
         level="fault_enumeration")

    prop("P08", "Retries are bounded, only for retryable failures, and return the right answer",
         """A query is attempted at most retry_count+1 times: connection loss, timeouts and retryable device
         errors are retried, while authentication errors and other errors are not, and the transport is
         reset before the next attempt except after a plain connection loss. If some allowed attempt succeeds the
         caller gets exactly that attempt's answer; otherwise the last failure is raised as a
         library error of the same class (timeouts as TimeoutError).""",
         ["fault_sequences", "schedules"],
         "every sequence of per-attempt outcomes, every retry_count, legacy, SMART and camera protocols",
         "Tests check single-fault counts; they do not cover mixed fault sequences of any order/length.",
         ["kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py",
          "kasa/protocols/smartcamprotocol.py"],
         [("_query retry loops", "kasa/protocols/iotprotocol.py, kasa/protocols/smartprotocol.py")],
         ["calls to transport.send/reset", "outcome and virtual time of protocol.query"],
         "Hypothesis: exhaustive-ish fault sequences vs a reference retry model (virtual time)",
         "Model written from the documented contract; transport replaced by a recording stand-in.",
         """A scripted transport raises a generated sequence of exceptions/answers; a 30-line model predicts the
         number of sends, resets and the final outcome.""",
         level="fault_enumeration")

    prop("P09", "Concurrent and cancelled queries never cross answers or wedge a device",
         """Any number of tasks may query one device concurrently: each receives the answer to its own request
         (or its own error), never another task's, and requests are never interleaved on one session. If
         any of them is cancelled or times out at any moment, the remaining and later queries still
         complete correctly and no lock or connection is left wedged.""",
         ["schedules", "histories", "fault_sequences"],
         "every interleaving of concurrent queries, cancellations at any await point and device delays, on "
         "every transport",
         "Tests issue sequential queries on mocks; cancellation at arbitrary await points under concurrency is "
         "not sampled.",
         ["kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py",
          "kasa/transports/xortransport.py", "kasa/transports/klaptransport.py",
          "kasa/transports/aestransport.py"],
         [("query_lock / _query_lock", "kasa/protocols/*.py"), ("handshake locks", "kasa/transports/klaptransport.py"),
          ("CancelledError handling closing the connection", "kasa/transports/xortransport.py")],
         ["answers per task", "frames seen by the reference device"],
         "Hypothesis: generated schedules/cancel points on a virtual-time event loop, tagged answers",
         "The event loop is owned by the harness, so schedules are deterministic and replayable.",
         """Generated start times, device delays and cancel times for N tasks over real wire-level reference
         servers; answers are tagged with the request, the server checks one outstanding request per session.""")

    # --------------------------------------------------------------- protocol
    prop("P10", "SMART multi-request batching and list paging are transparent",
         """For any set of SMART requests the result of one query equals what asking the device for each
         method separately would give: every requested method is present exactly once with its own answer
         or error, whatever the batch size, and lists that the device pages are returned complete, in order
         and without duplicates. Methods that must be sent alone are sent alone, no batch exceeds the
         limit for its connection, and no more requests are sent than needed to get there.""",
         ["inputs", "configurations", "histories"],
         "every set of methods, batch size, page size, list length, error placement and connection type",
         "Tests use fixed small request sets and two list shapes; the batch-boundary/paging/error product is not "
         "sampled.",
         ["kasa/protocols/smartprotocol.py"],
         [("_execute_multiple_query", "kasa/protocols/smartprotocol.py"),
          ("_handle_response_lists", "kasa/protocols/smartprotocol.py"),
          ("FORCE_SINGLE_REQUEST", "kasa/protocols/smartprotocol.py")],
         ["requests seen by a reference device", "query result"],
         "Hypothesis: differential vs per-method reference device model",
         "Reference device pages and errors per generated script.",
         """A model device holds generated answers per method (scalars, paged lists with sum/start_index,
         errors) and caps batch size; the query result must equal the per-method union.""")

    prop("P11", "Camera protocol translation preserves every request and answer",
         """For camera devices any set of get, set and do requests, in either the caller's short or full form
         (the low-level forms naming one section per request),
         reaches the camera with the method, module, section and parameters asked for, and the answer
         returned to the caller is the camera's answer for that method under the expected name. An error
         answered for any of them is raised (or, within a multi-request, reported for exactly that
         method) and never mistaken for data, and requests for child devices reach only the addressed child.""",
         ["inputs", "configurations"],
         "every combination of get/set/do/child requests, modules, sections, error codes and batch sizes",
         "Tests cover a few literal requests; the product of forms, batching and errors is not covered.",
         ["kasa/protocols/smartcamprotocol.py"],
         [("_get_smart_camera_single_request, _make_snake_name", "kasa/protocols/smartcamprotocol.py"),
          ("_execute_query, _handle_response_error_code", "kasa/protocols/smartcamprotocol.py"),
          ("_ChildCameraProtocolWrapper", "kasa/protocols/smartcamprotocol.py")],
         ["requests seen by reference camera", "query result"],
         "Hypothesis: differential vs reference camera request model",
         "Reference camera model from fixture request/answer shapes.",
         """Reference camera records module/section/params and answers tagged data or codes.""")

    prop("P12", "Requests for a child device reach only that child and its errors stay its own",
         """A request made through a child device (hub sensor, strip socket, child camera) is executed by exactly
         that child and its answer is the child's answer; an error of the child for one method is reported for that method
         only, and never as data; retryable errors of a child may be retried. Concurrent or
         repeated requests through different children of one parent never observe each other's data.""",
         ["inputs", "histories", "schedules"],
         "every set of children, requests (single and multi), error placements and interleavings",
         "Tests use one or two fixture hubs with valid answers; error placement per child request is sampled "
         "only singly.",
         ["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py", "kasa/iot/iotstrip.py"],
         [("_ChildProtocolWrapper", "kasa/protocols/smartprotocol.py"),
          ("IotStripPlug child context", "kasa/iot/iotstrip.py")],
         ["requests executed per child in the reference hub", "query results"],
         "Hypothesis: reference hub with per-child state; generated requests/errors/interleavings",
         "Reference hub written from fixture shapes.",
         """Reference hub with N children each holding distinct data; every answer is compared with the addressed
         child's own data.""")

    prop("P13", "Legacy update merges split queries without loss, and tolerates missing modules",
         """Updating a legacy device yields, for every module the device supports, exactly the data the device
         would return for each module's own query, no matter how the queries are split to respect the device's
         response-size limit or whether a module answers with an error. Modules the device reports as
         unsupported are skipped without affecting the others, and the merged data contains nothing the
         device did not answer.""",
         ["inputs", "configurations", "histories"],
         "every set of supported/failing modules, response-size limits and module answers, for every device "
         "family",
         "Fixture tests answer everything in one go; the split/merge paths are reached for one or two sizes.",
         ["kasa/iot/iotdevice.py", "kasa/iot/iotmodule.py"],
         [("_modular_update, merge", "kasa/iot/iotdevice.py, kasa/iot/iotmodule.py"),
          ("is_supported checks", "kasa/iot/iotmodule.py")],
         ["requests seen by reference device", "module data after update"],
         "Hypothesis: differential against per-module reference answers",
         "Reference device with generated response limits.",
         """Generated module subsets, failing modules and response limits over every legacy fixture; module data
         must equal the reference's own answers.""")

    # --------------------------------------------------------------- discovery
    prop("P14", "Discovery reports each responder exactly once and survives any datagram",
         """Whatever datagrams arrive, in any order, duplicated, from any port or host, malformed or truncated,
         discovery returns exactly one device per responding host whose answer is valid and supported, calls the
         on_discovered callback once for each of them and the on_unsupported callback once for each valid but unsupported one,
         and never lets one bad packet raise or suppress another host's result. Requests are sent
         to the documented ports the configured number of times, and discovery ends by its deadline.""",
         ["inputs", "schedules", "histories"],
         "every sequence and timing of datagrams from any set of hosts",
         "Tests inject one mocked datagram at a time; floods, duplicates and garbage interleaved with valid "
         "answers are not sampled.",
         ["kasa/discover.py", "kasa/json.py"],
         [("datagram_received, seen_hosts, unsupported_device_exceptions", "kasa/discover.py"),
          ("do_discover, wait_for_discovery_to_complete", "kasa/discover.py"),
          ("Discover.discover_single", "kasa/discover.py")],
         ["in-memory UDP endpoint", "returned devices and callbacks"],
         "Hypothesis: generated datagram schedules on virtual-time loop vs set model; datagram fuzz",
         "UDP endpoint replaced at the event-loop seam; DNS faked.",
         """Virtual network with N hosts each described by a generated script; the model predicts the device
         set, callbacks and unsupported set.""")

    prop("P15", "A discovered device is reachable with the configuration discovery produced",
         """For every valid discovery answer the resulting device has the class, host, port, model, encryption,
         login version and connection family the answer describes, and connecting again from that device's
         serialised configuration selects the same protocol, transport and device class. Families
         or encryptions that are not supported raise UnsupportedDeviceError naming the
         host rather than a wrong class.""",
         ["inputs", "configurations"],
         "every combination of device type, encryption type, https flag, login version, port and discovery "
         "format (legacy, encrypted-info, plain)",
         "Tests iterate the fixtures' literal discovery answers; the full product including unknown values is "
         "not covered.",
         ["kasa/discover.py", "kasa/device_factory.py", "kasa/deviceconfig.py"],
         [("_get_device_instance/_get_device_instance_legacy, get_device_class", "kasa/discover.py"),
          ("get_protocol, get_device_class_from_family", "kasa/device_factory.py")],
         ["class/transport/config of the returned device"],
         "Hypothesis: differential vs an independent mapping table; metamorphic via serialised config",
         "Mapping table written from the documentation's supported connection table.",
         """Generated discovery answers -> device; independent table predicts protocol/transport/class/port;
         config.to_dict -> from_dict -> get_protocol must agree.""")

    prop("P16", "Device configuration survives serialisation unchanged",
         """Serialising any device configuration and reading it back, through a dictionary or JSON text, gives an equal
         configuration that selects the same connection, for every combination of fields, leaving out values that are not
         set (an unset timeout reads back as the default). Passing a credentials hash or excluding credentials never leaves plain
         credentials in the serialised form, and malformed serialised input (missing or unknown parts, wrong
         structure) is rejected with an error instead of being accepted.""",
         ["inputs", "configurations"],
         "every combination of configuration fields and any unicode strings",
         "Tests check a couple of literal files.",
         ["kasa/deviceconfig.py", "kasa/credentials.py"],
         [("DeviceConfig.to_dict/from_dict/to_dict_control_credentials", "kasa/deviceconfig.py")],
         ["to_dict / from_dict results"],
         "Hypothesis: round trip over generated configurations + malformed input fuzz",
         "mashumaro trusted as a library, exercised through kasa only.",
         """Round trips through dict and JSON text over all field combinations; fuzzed malformed dicts.""")

    prop("P17", "Redacted debug output never contains the sensitive values it must hide",
         """For any device answer that can be decoded, everything logged while querying, updating or discovering contains none of the
         values the library lists as sensitive (identifiers beyond their tail, MAC addresses beyond the vendor part, aliases,
         SSIDs, location, credentials) when redaction is on; the identifiers with which requests address children are exempt.
         The account's password and its hashes are never logged. Redaction never changes the data
         given to the caller, keeps every other value, and never raises.""",
         ["inputs", "histories"],
         "every JSON structure with sensitive keys at any depth and any value type",
         "Tests check a few literal structures and regexes.",
         ["kasa/protocols/protocol.py", "kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py",
          "kasa/discover.py"],
         [("redact_data and the REDACTORS tables", "kasa/protocols/*.py, kasa/discover.py")],
         ["redact_data output", "debug log records"],
         "Hypothesis: taint tracking - unique sensitive markers planted, logs scanned",
         "Sensitive keys enumerated from the library's published tables plus credentials.",
         """Unique markers are planted under sensitive keys in generated structures and fixtures; log output of
         query/update/discovery at debug level is scanned.""")

    prop("P18", "Connecting never leaks and ends with a usable device or a library error",
         """Device.connect, single discovery followed by an update, and try-all connection give a device that is usable, or
         raise a library error (for try-all: give nothing); in the failing case, and for every candidate that was tried and dropped,
         all opened connections and HTTP sessions are closed. Disconnecting a device closes
         everything it opened, and a caller-provided HTTP session is never closed by the library.""",
         ["fault_sequences", "configurations", "histories"],
         "every failure at any step of connecting, for each connection type",
         "Tests check close() for one failing mock.",
         ["kasa/device_factory.py", "kasa/discover.py", "kasa/device.py", "kasa/httpclient.py"],
         [("connect try/except disconnect", "kasa/device_factory.py"),
          ("try_connect_all", "kasa/discover.py"), ("HttpClient.close", "kasa/httpclient.py")],
         ["open connections/sessions counted by the in-memory network"],
         "Hypothesis: fault at generated step; leak oracle on the in-memory network",
         "Connections counted at the event loop / aiohttp session seam.",
         """Generated failing step (connect, handshake, login, first query) x connection type; counters of open
         connections/sessions must be zero afterwards.""",
         level="fault_enumeration")

    # --------------------------------------------------------------- device
    prop("P19", "Features accept exactly their legal values and reject the rest with no effect",
         """For every feature of every device, the current value is readable after an update and has the type,
         range and choices the feature advertises; setting a legal value calls the device, and setting a number feature to an out-of-range number or a
         non-number, or a choice feature to an unlisted choice, raises an error before anything is sent. A feature whose data
         the device fails to deliver raises a library error instead. Read-only features
         always refuse to be set, and printing a feature never fails.""",
         ["inputs", "configurations"],
         "every feature of every supported device model and every value",
         "Tests set a boundary value or two through mocks; all features x all fixtures x all values is not sampled.",
         ["kasa/feature.py", "kasa/module.py", "kasa/iot/", "kasa/smart/", "kasa/smartcam/"],
         [("Feature.set_value/value/range/choices", "kasa/feature.py")],
         ["feature API", "requests seen by simulated devices"],
         "Hypothesis: all fixtures x features x generated values on simulated devices",
         "Simulated devices answer from the repository's recorded fixtures.",
         """For each fixture a stateful simulator; for each feature generated legal/illegal values; oracle: type,
         range, choices, no request on rejection.""")

    prop("P20", "A setting written to a device reads back as written after the next update",
         """On a device that applies what it is told, writing any legal value of any writable feature or
         setter and then updating makes the feature (and the property it mirrors) read back that value, and leaves
         all unrelated settings of the device as they were. This holds for any sequence of
         writes on any supported device, also for writes made while another update is under way.""",
         ["inputs", "histories", "configurations"],
         "every writable feature and setter, every legal value, every sequence of writes, every device model",
         "Tests assert on mocked calls for one value each.",
         ["kasa/iot/", "kasa/smart/modules/", "kasa/smartcam/modules/"],
         [("module setters", "kasa/*/modules/*.py")],
         ["feature values after update", "simulator state"],
         "Hypothesis: stateful model-based test on simulated devices from all fixtures",
         "Simulators implement the setters' semantics independently (device state = merged fields).",
         """Sequences of writes on simulated devices; model = dict of feature -> expected value; after each
         update all features are compared, unaffected ones must be unchanged.""")

    prop("P21", "Light commands mean exactly what was asked, within the limits of the bulb",
         """For every light, setting brightness, colour temperature, HSV, a combined light state or a transition leaves a
         conforming bulb in exactly that state and on the next update is what is read back; values outside the
         bulb's advertised limits and wrong types given to the setters of single values, and operations it does not support are rejected
         before anything is sent. Turning on or off keeps the rest of the light's state.""",
         ["inputs", "histories", "configurations"],
         "every light model, every combination of state fields, every sequence of commands",
         "Tests check a few literals per device against mocks.",
         ["kasa/iot/iotbulb.py", "kasa/iot/modules/light.py", "kasa/iot/iotdimmer.py", "kasa/smart/modules/light.py",
          "kasa/smart/modules/brightness.py", "kasa/smart/modules/color.py",
          "kasa/smart/modules/colortemperature.py", "kasa/smart/modules/lighttransition.py",
          "kasa/interfaces/light.py"],
         [("Light interface implementations", "kasa/iot/modules/light.py, kasa/smart/modules/light.py")],
         ["light properties after update", "simulator light state", "requests sent"],
         "Hypothesis: model-based light histories on simulated bulbs",
         "Reference bulb semantics (colour mode vs temperature mode, off keeps preferred state).",
         """Histories over every light fixture vs a light-state model.""")

    prop("P22", "Light effects and presets are selected, saved and reported consistently",
         """Selecting any listed effect makes it the reported effect after the next update and selecting Off or a
         plain colour ends it; custom effects are sent unchanged. Selecting a listed preset applies exactly that preset's values, saving a
         preset changes exactly that preset and no other, and, while no effect runs, the reported preset is one that matches the
         light's state. Unknown names are rejected before anything is sent.""",
         ["inputs", "histories", "configurations"],
         "every device with effects or presets, every effect/preset name and value, every sequence",
         "Tests cycle through names once on mocks; mixed histories and preset tables with effect entries are not covered.",
         ["kasa/iot/modules/lightpreset.py", "kasa/iot/modules/lighteffect.py", "kasa/smart/modules/lightpreset.py",
          "kasa/smart/modules/lighteffect.py", "kasa/smart/modules/lightstripeffect.py"],
         [("set_effect/set_custom_effect/save_preset", "kasa/*/modules/light*.py")],
         ["effect/preset properties after update", "simulator preset table"],
         "Hypothesis: model-based histories on simulated lights",
         "Reference semantics for preset tables and effect state.",
         """Generated preset tables incl. effect entries; model of table and current effect.""")

    prop("P23", "Energy readings are converted, aggregated and reported consistently",
         """Power, voltage, current and energy are reported in W, V, A and kWh equal to the device's reading whichever
         unit the device used, for today, this month and cumulative totals and for daily and monthly
         statistics; readings the device does not provide are absent rather than wrong. A power strip's totals are the sums over the sockets that provide the reading. Missing data yields None or a library error, never a
         wrong number.""",
         ["inputs", "configurations"],
         "every reading, unit variant, statistics list, date and set of sockets",
         "Tests use one or two fixed readings.",
         ["kasa/emeterstatus.py", "kasa/iot/modules/emeter.py", "kasa/iot/iotstrip.py",
          "kasa/smart/modules/energy.py", "kasa/interfaces/energy.py"],
         [("EmeterStatus.__getitem__", "kasa/emeterstatus.py"), ("Emeter/Energy properties", "kasa/*/modules/e*.py")],
         ["energy properties/features"],
         "Hypothesis: differential vs exact rational arithmetic reference",
         "Reference uses Fractions; float tolerance stated.",
         """Generated readings in both unit families, statistics lists, dates; reference via Fraction.""")

    prop("P24", "Device time, time zone and uptime are read and set exactly",
         """The device time reported equals the instant the device reported, in the device's time zone, including
         daylight saving (except the repeated hour of devices that report local time) and zones identified only by index or offset;
         sockets of a strip report the time of the strip; setting a time (with or without a
         zone) makes the device hold that same instant. The on-since time is the device time minus the reported on-duration, is
         absent when off, and stays stable (to a few seconds) across updates while the device stays on yet changes when the
         device was switched again.""",
         ["inputs", "histories"],
         "every time zone, instant, on-duration and sequence of updates and power changes",
         "Tests use fixed times and the host's zone.",
         ["kasa/iot/modules/time.py", "kasa/iot/iottimezone.py", "kasa/iot/iotdevice.py", "kasa/iot/iotstrip.py",
          "kasa/smart/modules/time.py", "kasa/smart/smartdevice.py", "kasa/smartcam/modules/time.py"],
         [("get_timezone/get_timezone_index, time properties", "kasa/iot/iottimezone.py, kasa/*/modules/time.py"),
          ("on_since", "kasa/iot/iotdevice.py, kasa/smart/smartdevice.py")],
         ["time/timezone/on_since properties", "simulator clock"],
         "Hypothesis: differential vs zoneinfo arithmetic on simulated device clocks",
         "zoneinfo database trusted.",
         """Simulated clocks in generated zones; set/read round trip; histories for on_since.""")

    prop("P25", "Strip sockets are independent and the strip summarises them correctly",
         """Turning a socket of a power strip on or off, renaming it or reading its energy affects and reports only that
         socket, a legacy strip is on exactly when some socket is on, and turning it on or off leaves every
         socket it knew to be in the other state switched. After each update children keep their identity, order and parent, and their
         properties are the device's data for that socket.""",
         ["inputs", "histories"],
         "every strip model and number of sockets, every sequence of operations and updates, sockets changed "
         "behind the library's back",
         "Tests toggle one socket once.",
         ["kasa/iot/iotstrip.py", "kasa/smart/smartdevice.py", "kasa/smart/smartchilddevice.py"],
         [("IotStripPlug context requests", "kasa/iot/iotstrip.py"), ("child updates", "kasa/smart/smartdevice.py")],
         ["children properties", "simulator state"],
         "Hypothesis: model-based histories on simulated strips",
         "Simulated strips from fixtures with generated socket counts.",
         """Histories of per-socket and strip commands vs model.""")

    prop("P26", "One failing module never breaks the others, and it recovers",
         """When the device fails to answer some modules' queries, though not the device information itself, an update still succeeds
         with correct data for all
         other modules, and the failing module's data raises a library error rather than returning stale or
         foreign data. A module that keeps failing is asked again only after 30 seconds times its failures in a row and given up after ten, one
         that recovers works again, and other modules keep being queried at their usual interval.""",
         ["fault_sequences", "histories", "schedules"],
         "every set of failing methods, error code and sequence of updates and time gaps, on every device",
         "Tests fail one module with one error for a fixed number of updates.",
         ["kasa/smart/smartdevice.py", "kasa/smart/smartmodule.py", "kasa/smart/smartchilddevice.py"],
         [("_modular_update / _handle_modular_update_error", "kasa/smart/smartdevice.py"),
          ("_set_error, _should_call, disabled", "kasa/smart/smartmodule.py")],
         ["module data/exception after update", "methods queried per update"],
         "Hypothesis: model-based histories of updates with injected per-method faults (virtual time)",
         "Simulated SMART devices from fixtures.",
         """Generated fault scripts and gaps; the model tracks per-module state.""",
         level="fault_enumeration")

    prop("P27", "Hub children track the hub's list as devices come, go and change",
         """After every update a hub's children are exactly the supported devices the hub lists (across pages), each with
         its own data; a child that stays keeps its identity, a removed one disappears and a new one is
         created once, in any sequence. A child that is unsupported or fails does not prevent
         the hub or other children from updating, and when the list cannot be read the children stay until it is read again.""",
         ["histories", "fault_sequences"],
         "every sequence of pairings, removals, replacements and failures between updates, both hub families",
         "Tests add or remove a child once.",
         ["kasa/smart/smartdevice.py", "kasa/smartcam/smartcamdevice.py", "kasa/smart/smartchilddevice.py",
          "kasa/smartcam/smartcamchild.py"],
         [("_update_children_info/_create_delete_children", "kasa/smart/smartdevice.py"),
          ("child creation", "kasa/smartcam/smartcamdevice.py")],
         ["children after update", "simulated hub"],
         "Hypothesis: stateful pairing/unpairing histories on simulated hubs",
         "Simulated hubs with child fixtures.",
         """Histories of pair/unpair/fail/update vs set model.""")

    prop("P28", "Reading properties does no I/O and reflects only the last successful update",
         """After an update, reading any property or feature of a device, its children or modules sends nothing to the
         device and repeats the same value until the next update or command; reading before the first
         update raises a library error or gives nothing but what is known without asking the device. Two device objects never share state,
         and a failed update leaves the previously read values readable.""",
         ["histories", "configurations", "fault_sequences"],
         "every device model, every property, every interleaving of reads, updates and failures of several "
         "device objects",
         "Tests look at single properties on one device.",
         ["kasa/device.py", "kasa/iot/iotdevice.py", "kasa/smart/smartdevice.py", "kasa/smartcam/smartcamdevice.py"],
         [("requires_update, _last_update caching", "kasa/iot/iotdevice.py, kasa/smart/smartdevice.py")],
         ["property values", "requests seen by simulators"],
         "Hypothesis: generated read/update/fail interleavings over all fixtures; no-I/O oracle",
         "Public properties are enumerated by reflection.",
         """All public properties via reflection on simulated devices; request counter must not move; two
         instances are compared against independent runs.""")

    prop("P29", "Appliance modules send exactly the setting requested and report device state",
         """For alarms, thermostats, fans, vacuums, consumables, locks, motion and dimmer settings and camera
         privacy/detection, each command results in the device holding exactly the requested setting and
         no other change, out-of-range numbers and unknown names are rejected before sending, and after an update the reported
         status equals the device's state for every state the library knows, an unknown status or error being reported as unknown
         where the library has such a value. A command the device refuses raises a library error and leaves
         what is read as it was.""",
         ["inputs", "histories", "configurations"],
         "every module, argument value and device state",
         "Tests assert a single mocked call per setter.",
         ["kasa/smart/modules/", "kasa/smartcam/modules/", "kasa/iot/modules/"],
         [("module getters/setters", "kasa/smart/modules/*.py, kasa/smartcam/modules/*.py, kasa/iot/modules/*.py")],
         ["requests and simulator state", "module properties"],
         "Hypothesis: differential vs per-module reference state machines",
         "Per-module reference semantics written from fixtures and docs.",
         """Generated states and arguments per module, compared with a reference table.""")

    prop("P30", "Firmware updates are checked, driven and reported correctly",
         """An update is started only when requested and one is available, progress is polled until the device reports
         completion or failure, each reported state reaches the progress callback in order, and
         disconnections while the device reboots are tolerated until the overall deadline of
         five minutes. Update
         availability and versions equal what the device and cloud report, including when the
         cloud is unreachable.""",
         ["fault_sequences", "schedules"],
         "every sequence of progress states, errors and delays",
         "Tests run two fixed sequences.",
         ["kasa/smart/modules/firmware.py", "kasa/iot/modules/cloud.py"],
         [("Firmware.update loop", "kasa/smart/modules/firmware.py")],
         ["requests and callbacks in virtual time"],
         "Hypothesis: generated progress/fault scripts in virtual time vs reference loop",
         "Simulated device, virtual clock.",
         """Generated download-state scripts vs expected callback sequence and result.""",
         level="fault_enumeration")

    prop("P31", "Provisioning sends credentials exactly and only in the device's encoding",
         """Joining a Wi-Fi network, listing networks, changing cloud credentials, renaming a device and building a camera
         stream URL use exactly the SSID, password, key type, name and credentials given, for any characters,
         in the encoding the device expects, on devices that join networks themselves. What the device stores decodes to what the caller
         passed, and scan results decode to what the device reported (bytes that are no UTF-8 are replaced).""",
         ["inputs"],
         "every unicode SSID, alias, username and password",
         "Tests use ASCII literals.",
         ["kasa/iot/iotdevice.py", "kasa/smart/smartdevice.py", "kasa/smartcam/smartcamdevice.py", "kasa/smartcam/modules/camera.py"],
         [("wifi_scan/wifi_join/set_alias/update_credentials", "kasa/*/*.py"), ("stream_rtsp_url", "kasa/smartcam/modules/camera.py")],
         ["requests seen by the simulators", "decoded URL/credentials"],
         "Hypothesis: round trip through an independent decoder",
         "base64/URL decoding from the standard library.",
         """Generated strings round trip through the simulators' decoders.""")

    prop("P32", "The command line does what the API does and prints parseable truth",
         """The command-line tool reaches the device with exactly the connection options given; every device command sends the same requests as the corresponding API call, prints
         values equal to the device's state, exits 0 on success and non-zero on any error. In JSON mode
         stdout is one parseable JSON document on success and nothing but JSON on errors, and secrets given on the command line are never printed.""",
         ["inputs", "configurations"],
         "every command, argument value and device model, success and failure",
         "Tests run each command once against mocks.",
         ["kasa/cli/"],
         [("json_formatter_cb, CatchAllExceptions", "kasa/cli/common.py"), ("commands", "kasa/cli/*.py")],
         ["stdout, exit code, simulator state"],
         "Hypothesis: differential CLI vs API on simulated devices",
         "Device discovery/connect replaced by passing the simulated device object.",
         """Generated command lines run in-process on simulated devices; state compared with API run.""")

    prop("P33", "Usage statistics and rules are read exactly as the device holds them",
         """Today's and this month's usage and the daily and monthly tables equal the device's records for those dates,
         for any date, any order or gaps of records and any month or year boundary, and are
         zero or absent when the device has none. Schedules, countdowns and away rules in the known rule format are returned exactly
         as stored and deleting them removes exactly those asked for.""",
         ["inputs", "histories"],
         "every record list, date and rule set",
         "Tests use one fixture's records.",
         ["kasa/iot/modules/usage.py", "kasa/iot/modules/rulemodule.py", "kasa/iot/modules/emeter.py"],
         [("Usage/RuleModule", "kasa/iot/modules/usage.py, kasa/iot/modules/rulemodule.py")],
         ["module properties", "requests seen by the simulator"],
         "Hypothesis: differential vs reference aggregation under a virtual calendar",
         "Virtual calendar via the harness clock.",
         """Generated records/dates vs reference; rule sets in several device formats.""")

    prop("P34", "Device information is exactly what the device reports",
         """After an update the alias, model, MAC address (in hexadecimal with colons), device id, signal strength,
         network name, location, hardware information, device type, region, firmware and hardware version, brand and
         on state of a device, of its sockets and of its hub's children equal what that device itself last reported,
         in whichever of the known formats it reports them, and the features showing them agree. A device known
         only from discovery gives the model, MAC address and device id of the discovery answer.""",
         ["inputs", "configurations", "histories"],
         "every recorded model with any identity values, in any reported format, changing between updates",
         "Tests read a few fields of each fixture once and compare them with the same fixture through the same code.",
         ["kasa/device.py", "kasa/iot/iotdevice.py", "kasa/smart/smartdevice.py", "kasa/smartcam/smartcamdevice.py",
          "kasa/smartcam/smartcamchild.py"],
         [("device properties, _get_device_info", "kasa/iot/iotdevice.py, kasa/smart/smartdevice.py, "
           "kasa/smartcam/smartcamdevice.py, kasa/smartcam/smartcamchild.py")],
         ["device properties", "features"],
         "Hypothesis: generated device reports vs an independent reading of them, over updates",
         "Device kinds are those of the recorded models, frozen by hand.",
         """Generated identity fields put into simulated devices, compared with every public property.""")

    prop("P35", "Modules and features exist exactly when the device supports them",
         """A device, socket or hub child offers a module exactly when it reports the component, status field, flag or
         service that the module needs, offers the features of its modules and nothing that only other devices
         have, and is never asked for what it does not support. Whether a module has a feature and which one it is
         agree with the features of the device and with the attribute itself.""",
         ["inputs", "configurations"],
         "every recorded model and every subset of what it reports to support",
         "Tests only see the combinations that were recorded.",
         ["kasa/smart/smartdevice.py", "kasa/smartcam/smartcamdevice.py", "kasa/iot/", "kasa/module.py",
          "kasa/device.py"],
         [("_initialize_modules, _initialize_features", "kasa/smart/smartdevice.py, kasa/smartcam/smartcamdevice.py, "
           "kasa/iot/iotdevice.py"), ("get_feature", "kasa/module.py")],
         ["modules, features", "requests seen by the simulator"],
         "Hypothesis: metamorphic removal of capabilities vs a frozen capability table",
         "The capability table is frozen in the check.",
         """Capabilities removed from simulated devices; modules, features and requests vs the table and the whole
         device.""")

    prop("P36", "Names of earlier releases still work and mean the current thing",
         """Every deprecated name of devices, of the light and energy modules and of the package gives the value of its
         current replacement, or does exactly the same request with the same result, on every device that has the
         replacement, and warns that it is deprecated; light strips keep giving their effects and presets in the
         form of earlier releases. On devices without the replacement the name does not exist, unknown names never
         do, and reading a name sends nothing.""",
         ["inputs", "configurations", "histories"],
         "every deprecated name, device, argument value and state of the device",
         "Tests use each name once per fixture and mostly check that there is some value and a warning.",
         ["kasa/device.py", "kasa/__init__.py", "kasa/interfaces/light.py", "kasa/interfaces/energy.py"],
         [("__getattr__ of devices, modules and the package", "kasa/device.py, kasa/interfaces/light.py, "
           "kasa/interfaces/energy.py, kasa/__init__.py"),
          ("old forms of effects and presets", "kasa/iot/modules/lighteffect.py, kasa/iot/modules/lightpreset.py, "
           "kasa/smart/modules/lightstripeffect.py")],
         ["values, warnings", "requests and state of the simulated device"],
         "Hypothesis: differential of old against current names on twin devices",
         "The list of names and their replacements is frozen in the check; old names are looked at on updated devices, and before the update only for harmlessness.",
         """Histories of uses of old names, each repeated with the current name on a twin; values, results, requests
         and state of both devices are compared.""")
    prop("P37", "A dumped fixture names nobody and otherwise holds what the device said",
         """The files devtools/dump_devinfo writes for a device and its children never contain the identifying values the
         redaction tables list nor IP addresses, and hold every read the device answered exactly as it answered it,
         under the name made of model, region, hardware and firmware version. Reads or children that do not answer do
         not keep the rest from being dumped, each child keeps one stand-in for its id, nothing is written without
         confirmation, and dumping changes nothing on the device.""",
         ["inputs", "configurations", "fault_sequences"],
         "every device, set of children, set of reads that fail, page and batch size and way of naming the device",
         "Tests dump recorded devices whose values were already scrubbed, and skip devices with children.",
         ["devtools/dump_devinfo.py", "devtools/helpers"],
         [("dump of smart devices and cameras", "devtools/dump_devinfo.py: get_smart_fixtures, scrub_child_device_ids"),
          ("dump of legacy devices", "devtools/dump_devinfo.py: get_legacy_fixture"),
          ("tables of what to hide", "kasa/protocols/*.py, kasa/discover.py: REDACTORS")],
         ["files written", "requests the simulated device saw"],
         "Hypothesis: device simulator with unique identifying values, all files scanned and compared",
         "The files are compared with what the simulated device answered, key by key outside the redacted ones; the "
         "device simulated from the file must have the same features as the original.",
         """The real command-line tool dumps simulated devices whose identifying values are unique; its files are
         searched for those values, compared with the answers the device gave and loaded into the simulator again.""")

    prop("P38", "Developer tools list, decode and update recorded devices faithfully",
         """The generated lists of supported devices name every recorded device's model and version exactly once, under its
         brand and product group and with the right authentication mark, whatever the order of the files, and leave the text
         around them alone. The capture decoders give exactly the requests and payloads that were sent, in order, and nothing
         when the account is another one. Updating recorded devices removes identifying values, keeps the rest and each
         child's pairing with its components, and a second run of any of them changes nothing.""",
         ["inputs", "histories", "configurations"],
         "every set of recorded devices, account, sequence number, history of handshakes and requests, and kind of packet",
         "No test runs these tools; a capture of a session cannot be had without a device.",
         ["devtools/generate_supported.py", "devtools/parse_pcap_klap.py", "devtools/parse_pcap.py", "devtools/update_fixtures.py"],
         [("lists", "devtools/generate_supported.py: generate_supported"), ("captures", "devtools/parse_pcap_klap.py: Operator, main; devtools/parse_pcap.py"),
          ("updates", "devtools/update_fixtures.py")],
         ["files written", "payloads decoded"],
         "Hypothesis: generated fixtures, captures of an independent KLAP client, round trips",
         "The libraries reading capture files are not installed; stand-ins hand the tools the packets.",
         """Generated fixture sets are listed and the lists parsed back; sessions of an independent KLAP client are decoded;
         fixtures with unique identifying values are updated twice and searched.""")

    prop("P39", "Without its optional packages the library does exactly the same",
         """Without the optional accelerators (orjson, kasa-crypt) the library loads, and writes and reads the same JSON
         values and frames as with them: every protocol and transport, discovery, saved configurations, reading and writing
         of settings and the command line behave as stated for them elsewhere. Text that is no JSON is refused in the same
         way.""",
         ["inputs", "histories", "configurations"],
         "every JSON value, malformed text, and every history of the properties that are checked again",
         "The tests only ever run with the packages that happen to be installed.",
         ["kasa/json.py", "kasa/transports/xortransport.py", "kasa/deviceconfig.py", "kasa/discover.py", "kasa/protocols/"],
         [("fallbacks", "kasa/json.py; kasa/transports/xortransport.py"),
          ("serialisation mixin", "kasa/json.py: DataClassJSONMixin")],
         ["JSON text", "requests seen by the reference devices", "values returned"],
         "Hypothesis: differential against the optional packages, and the other properties' oracles without them",
         "The packages are made unimportable before the library is loaded.",
         """With the packages made unimportable, JSON values and damaged text are compared with what orjson does, and the
         generators and reference devices of fifteen other properties are run again.""")
