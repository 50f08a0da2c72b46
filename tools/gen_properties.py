#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append(d)

# ------------------------------------------------------------------ persistence
prop("C01", "Every persisted change is queued, written to its table and committed",
 "Whenever the application, a group, the backup manager, the topology scanner or a device cluster announces a change that belongs in the database (device joined, initialized or removed, last-seen, relays, attribute set, cleared or marked (un)supported, group and membership changes, neighbors, routes, backups), the attached database queues exactly that change and the single writer applies it to the table that stores it. Every path through the writer that modified a table ends with a commit before the next change is taken, changes are applied in arrival order, and every announced event name reaches the database with the arguments it expects.",
 ["histories", "schedules", "crash_points"], "all event histories, all writer interleavings, a crash between any two changes",
 "Tests drive a few events and look at the resulting file; they do not show that each path of each handler commits, nor that every emitter's name and arity reach a handler.",
 ["zigpy/appdb.py", "zigpy/application.py", "zigpy/group.py", "zigpy/zcl/__init__.py", "zigpy/endpoint.py", "zigpy/topology.py", "zigpy/backups.py"],
 [("event -> queue -> handler -> SQL -> commit", "PersistingListener.*"), ("listener wiring", "ControllerApplication._add_db_listeners, Endpoint.add_*_cluster, device_initialized")])
prop("C02", "Schema creation and migration are atomic, complete and version-guarded",
 "Opening a database either leaves it exactly as it was or brings every table from its old version to the current one inside a single transaction: a failing step rolls everything back, and a crash while creating or upgrading never leaves a half-built database that claims to be current. The upgrade steps form one gap-free chain ending at the current version, each step carries every old table to its successor (or explicitly names it as not carried), and rows are never lost silently except where the step says so. A database whose version marker disagrees with its tables is refused, and one from a newer release is left untouched.",
 ["histories", "crash_points", "fault_sequences"], "every stored schema version 0..current, any failing statement, a crash at any statement",
 "The migration tests use a handful of database files and inject one failure; they cannot cover every old version with every fault point.",
 ["zigpy/appdb.py", "zigpy/appdb_schemas/"],
 [("transaction around all steps", "PersistingListener._run_migrations/_transaction"), ("table maps", "PersistingListener._migrate_to_v*")])
prop("C03", "What is saved can be loaded back: SQL agrees with the schema both ways",
 "Every statement the database layer issues names tables and columns that exist in the current schema and supplies one value per column in column order; an insert that can meet an existing row updates every non-key column, so no stale value survives. Everything that is saved is read back on start-up into the same place it came from (server and client clusters kept apart, all key columns honoured), rows that refer to endpoints or clusters a device replacement no longer has are skipped rather than aborting start-up, and loading announces nothing that would be written again.",
 ["histories", "inputs"], "all tables, all columns, all rows a previous run could have left",
 "Tests reload a few hand-made devices; a column swapped, dropped from an upsert or read into the wrong field shows up only for values the tests do not use.",
 ["zigpy/appdb.py", "zigpy/appdb_schemas/schema_v13.sql", "zigpy/zdo/types.py"],
 [("SQL text vs schema", "PersistingListener.*"), ("load", "PersistingListener.load/_load_*")])
prop("C04", "Removing a device or group leaves no rows behind",
 "After the removal of a device is written, no table contains a row that belongs to that device, and after a group is removed no membership row refers to it; the same holds for rows hanging off a removed endpoint or cluster. This works because referential integrity is switched on for every connection before any migration or write, and every table keyed by a device, group, endpoint or cluster is either cascaded from its parent or deleted explicitly.",
 ["histories", "configurations"], "all table contents at the moment of removal",
 "The tests count rows in a few tables for one device; a table added without a cascade, or a connection with enforcement off, leaves orphans nobody counts.",
 ["zigpy/appdb.py", "zigpy/appdb_schemas/schema_v13.sql"],
 [("foreign keys ON + ON DELETE CASCADE", "initialize_tables, schema_v13.sql"), ("_remove_device/_group_removed", "zigpy/appdb.py")])
prop("C05", "The database writer survives failures, rolls back, and drains on shutdown",
 "A change that fails to be written (bad data, constraint, disk error) is logged and dropped without stopping the writer, and none of its partial statements are committed together with a later change. Closing stops accepting new changes first, then waits until every queued change has been handled, and only then stops the writer and closes the connection; each queued change is accounted for exactly once, so closing can never hang or lose one.",
 ["fault_sequences", "schedules", "histories"], "any failing handler at any position, shutdown at any moment",
 "Tests inject one error into one handler; the effect of a half-executed handler on the next commit and the shutdown/queue interleavings are not explored.",
 ["zigpy/appdb.py"], [("worker loop", "PersistingListener._worker"), ("shutdown/enqueue", "PersistingListener.shutdown")])
# ------------------------------------------------------------------ requests
prop("C06", "Requests release their bookkeeping on every exit",
 "However a unicast request ends (reply, timeout, send failure, cancellation, parse error), its entry in the device's table of outstanding requests is removed, its result is completed or cancelled, and its concurrency slot is returned exactly once. The outstanding entry exists before the frame is handed to the radio, so that a reply arriving during the send is not lost, the wait for the reply is always bounded by a timeout, and a request that expects no reply never occupies an entry.",
 ["schedules", "fault_sequences"], "all interleavings of send, reply, timeout and cancellation",
 "Tests cancel or time out at a few await points; leaks need an exception at one specific await.",
 ["zigpy/device.py", "zigpy/util.py", "zigpy/application.py", "zigpy/datastructures.py"],
 [("request", "Device.request"), ("Request context manager", "util.Request, util.Requests.new"), ("_limit_concurrency", "Device/ControllerApplication")])
prop("C07", "A response resolves only the matching outstanding request, once",
 "An incoming frame completes an outstanding request only if it comes from the device the request was sent to, carries the same transaction number and travels in the reply direction; a frame that is not a reply is never consumed as one. Each outstanding request is completed at most once (late or duplicate replies are ignored without error), a reply that cannot be decoded fails its requester instead of leaving it waiting, and a transaction number that is still outstanding is refused for a second request to the same device.",
 ["schedules", "inputs", "histories"], "all interleavings of outgoing requests and incoming frames, with transaction numbers wrapping",
 "Tests use a handful of frames with distinct numbers; collisions, wrong-direction and duplicate frames are sampled once or not at all.",
 ["zigpy/device.py", "zigpy/util.py", "zigpy/application.py"],
 [("packet_received", "Device.packet_received"), ("Requests.new duplicate check", "zigpy/util.py")])
prop("C08", "The concurrency limiter never over-admits, leaks or loses a wakeup",
 "At most the configured number of requests are in flight; a slot is taken only when one is free, and is returned exactly once when its holder leaves for any reason. When a slot is returned or the limit is raised and requests are queued, a queued live one is woken in order of priority and, within equal priority, arrival; a queued request that is cancelled, even at the instant it is woken, never absorbs a wakeup nor leaves the limiter stuck. Over-releasing and negative limits are refused.",
 ["schedules", "histories"], "all interleavings of acquire, release, cancellation and limit changes",
 "The semaphore tests run a few fixed schedules; a lost wakeup needs a cancellation in the one event-loop step between wake and resume.",
 ["zigpy/datastructures.py", "zigpy/application.py", "zigpy/device.py"],
 [("PriorityDynamicBoundedSemaphore", "zigpy/datastructures.py"), ("_limit_concurrency", "zigpy/application.py, zigpy/device.py")],
 [("_value/_max_value/_waiters", "free slots, limit, queued requests")])
prop("C09", "Malformed or unexpected frames are contained",
 "No frame content, however truncated or malformed, makes the packet entry point raise to the radio driver; a frame that cannot be decoded is dropped without reaching any message handler or response listener, and it never changes device state beyond signal and last-seen bookkeeping. Frames for endpoints or clusters the device does not have are ignored, and frames from unknown short addresses trigger a discovery request instead of an error.",
 ["inputs", "histories"], "every byte string, every cluster, endpoint and address",
 "Tests feed a few broken payloads; decoders have hundreds of raise sites and any one outside the guarded region escapes.",
 ["zigpy/device.py", "zigpy/application.py", "zigpy/zdo/__init__.py", "zigpy/zcl/__init__.py", "zigpy/endpoint.py"],
 [("guarded decoding", "Device.packet_received, ControllerApplication.packet_received/_maybe_parse_zdo")])
prop("C10", "Replies echo the requester's transaction and direction",
 "Every reply the stack sends on its own (default responses, attribute read responses, ZDO responses, cluster client responses) carries the transaction number, cluster and command of the request it answers, is sent in the opposite direction, and is never itself awaited. Default responses are sent only for commands that did not ask to suppress them; responses are never answered. Attribute read requests are answered with one record per requested attribute, and ZDO address requests only when they ask for the coordinator's own address.",
 ["inputs", "histories"], "all incoming commands and headers",
 "Tests check a few commands; the handlers have many branches that build a reply by hand.",
 ["zigpy/zcl/__init__.py", "zigpy/zdo/__init__.py", "zigpy/device.py", "zigpy/endpoint.py"],
 [("reply construction", "Cluster.reply/send_default_rsp/handle_cluster_general_request, ZDO.handle_*")])
prop("C11", "Response listeners are always unregistered and cannot break each other",
 "A listener registered to wait for or observe responses is active for exactly the duration of its block: it is registered before the block body runs and removed on every exit, including exceptions and cancellation. A listener sees exactly the frames its filters match. A one-shot listener is resolved at most once and never after it was cancelled, an exception in an observer callback does not reach the frame dispatcher, and only a one-shot listener that really resolved stops later listeners from seeing the frame.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of frames, cancellations and callback failures",
 "Tests register one or two listeners and exit normally.",
 ["zigpy/application.py", "zigpy/listeners.py", "zigpy/device.py"],
 [("callback_for_response/wait_for_response", "zigpy/application.py"), ("resolve", "zigpy/listeners.py")])
prop("C12", "The attribute cache mirrors device-confirmed state and always notifies",
 "A cached attribute value changes only because the device reported it, answered a read with success, confirmed a write with success, or the caller updated it explicitly; a failed or unsupported record never changes the stored value. Every such change stores the value together with its timestamp and notifies listeners with the same value, removing a value notifies too, and an attribute is marked unsupported only when the device answered that the attribute is unsupported, with the mark cleared when a read or a reporting configuration of it succeeds.",
 ["inputs", "histories"], "all sequences of reads, writes, reports and status codes",
 "Tests use single-record responses mostly with success; mixed-status multi-record responses are barely sampled.",
 ["zigpy/zcl/__init__.py"], [("_update_attribute, read_attributes, write_attributes, handle_cluster_general_request", "zigpy/zcl/__init__.py")],
 [("_attr_cache/_attr_last_updated/unsupported_attributes", "cached values, times, unsupported marks")])
prop("C13", "A failing listener never affects the emitter or other listeners",
 "Announcing an event calls every listener that is registered at that moment and implements it, even if some raise or (un)register listeners meanwhile, and the exception never reaches the code that announced the event. Removing a listener removes exactly that object, and one object can be registered more than once without displacing another.",
 ["histories", "fault_sequences", "programs"], "any set of listeners, any exception, any mutation during delivery",
 "Tests use one raising listener; ordering and mutation during iteration are not sampled.",
 ["zigpy/util.py", "zigpy/listeners.py", "zigpy/endpoint.py", "zigpy/zcl/__init__.py"], [("ListenableMixin.listener_event/async_event", "zigpy/util.py")])
prop("C14", "Group membership is symmetric and every change is announced once",
 "An endpoint is listed in a group exactly when the group is listed in the endpoint, after any sequence of additions, removals, group deletions, membership re-scans and device removals. Every real change is announced exactly once with the right group and endpoint (membership after the link is made, removal of each member before removal of the group), nothing is announced when nothing changed or when loading from storage, and membership changes that need the device are recorded only when the device confirmed them.",
 ["histories", "inputs", "fault_sequences"], "all sequences of group operations and device answers",
 "Tests run short sequences with one endpoint; asymmetric leftovers only show in later operations.",
 ["zigpy/group.py", "zigpy/endpoint.py", "zigpy/zcl/clusters/general.py", "zigpy/device.py"],
 [("Group/Groups", "zigpy/group.py"), ("Endpoint.add_to_group/remove_from_group", "zigpy/endpoint.py")])
prop("C15", "Joining and initialization follow one lifecycle",
 "A join announces the device once per new device or changed short address, after the short address is recorded, and starts initialization whenever the device is new, moved or not fully initialized. Initialization interviews in order (descriptor, endpoints, each endpoint, model information), marks the device initialized and announces it only after every step succeeded, retries a bounded number of times and announces failure exactly once otherwise; at most one initialization of a device runs at a time. On success the raw device is announced first, then replaced by its quirk in the device table, then announced as initialized.",
 ["histories", "fault_sequences", "schedules"], "all join/leave/rejoin sequences and failing interview steps",
 "Tests simulate a few join sequences with one failing step.",
 ["zigpy/application.py", "zigpy/device.py", "zigpy/endpoint.py"],
 [("handle_join/device_initialized", "zigpy/application.py"), ("initialize/_initialize/schedule_initialize", "zigpy/device.py"), ("Endpoint.initialize", "zigpy/endpoint.py")])
prop("C16", "A topology scan isolates failures and always terminates",
 "Scanning one device's tables can fail in any way without preventing the scan of the next device, losing that device's previous results or suppressing its notification. Reading a table always makes progress or stops: it advances by the entries received and ends on an empty page, on the reported total or on an error status, and devices that report scanning as unsupported are remembered and skipped. Only routers and the coordinator are scanned, a new scan replaces a running one, invalid neighbor entries and inactive routes are left out of the results, and each unknown device seen in the tables is looked up once.",
 ["fault_sequences", "inputs", "schedules"], "any device answers and failures in any position",
 "Tests use well-behaved tables and one failing device.",
 ["zigpy/topology.py"], [("_scan/_scan_table/scan", "zigpy/topology.py")])
# ------------------------------------------------------------------ backups
prop("C17", "Restoring never rolls back the frame counter or uses an incomplete backup",
 "Restoring a backup writes to the radio the stored network with the outgoing frame counter advanced by the requested increment (a large one by default) and everything else unchanged, and refuses a backup that lacks the information needed to recreate the network unless explicitly allowed. An incomplete backup is never stored; storing a complete one discards only older backups of the same network whose frame counter is not ahead of it, announcing each removal and the addition, and the newest stored backup is always the one used for automatic restore.",
 ["histories", "inputs"], "all backup histories and network states",
 "Tests restore two fixture backups; superseding and counter ordering are sampled on a few values.",
 ["zigpy/backups.py", "zigpy/application.py"], [("restore_backup/add_backup/is_complete/is_compatible_with", "zigpy/backups.py")])
prop("C18", "Backup formats carry every field in both directions",
 "The internal backup JSON format writes and reads back every field of the network and node state, and the open-coordinator format every field its schema defines (radio settings, keys and frame counters, per-device addresses, child flags and link keys, stack-specific and extra metadata), in the same unit, byte order and hexadecimal form. Parts a document may leave out (the format's `internal` section, `is_child`, key sequence numbers, the format version) take their documented defaults. Reading never mutates the document it was given, and a document of an unknown kind or internal version is refused.",
 ["inputs"], "all network states and backup documents",
 "Tests round-trip two fixtures whose values are often zero or byte-palindromic.",
 ["zigpy/backups.py", "zigpy/state.py"], [("as_dict/from_dict pairs", "zigpy/state.py"), ("open-coordinator conversion pair", "zigpy/backups.py")])
prop("C19", "Forming a network uses valid, freshly random settings",
 "A network is formed with the configured settings where given and otherwise with a freshly drawn network key and extended PAN ID from the operating system's secure random source and a PAN ID inside the valid range; the key is never a constant and never logged. Frame counters start at zero, the channel always comes from the configured channel set, and a channel migration broadcasts the incremented network update identifier before moving the coordinator and waits until the change is visible. Joining stays limited: permit durations outside 0-254 seconds are refused, permitting joins through one router or the coordinator involves no other node, and start-up closes joining.",
 ["configurations", "inputs"], "all configurations and random draws",
 "Tests form one or two networks with patched randomness.",
 ["zigpy/application.py", "zigpy/config/__init__.py", "zigpy/util.py"], [("form_network, move_network_to_channel, permit, initialize", "zigpy/application.py")])
prop("C20", "Install codes are verified before a key is derived or used",
 "A link key is derived from an install code only when the code has one of the defined lengths and its trailing checksum matches the rest, in the defined byte order; otherwise no key is produced. Joining with an install code opens the network with a derived key only when derivation succeeded, and raises otherwise.",
 ["inputs"], "every byte string offered as an install code",
 "Tests try a few codes.",
 ["zigpy/util.py", "zigpy/application.py"], [("convert_install_code", "zigpy/util.py"), ("permit_with_key", "zigpy/application.py")])
# ------------------------------------------------------------------ OTA
prop("C21", "Firmware is used only after size, checksum and structure were verified",
 "Downloaded firmware becomes an image only after its bytes matched the advertised size and checksum (whenever the index provides them) or, for signed IKEA containers, the container's layout and every block's hash, and it parsed as a complete image whose declared sizes agree with what is present; a failure at any stage raises. Every index is checked against its schema, and its entries' checksums, sizes and locations reach the image description unchanged; a file found in a folder is remembered with the digest of the very bytes that parsed, and one that does not parse is skipped. No way of obtaining an image bypasses these checks. The firmware validators report truncated or corrupt Silicon Labs firmware as invalid and never reject formats they do not know.",
 ["inputs", "fault_sequences"], "all downloads, indexes and image bytes",
 "Tests check one mismatch per kind on one provider.",
 ["zigpy/ota/providers.py", "zigpy/ota/__init__.py", "zigpy/ota/image.py", "zigpy/ota/validators.py"],
 [("BaseOtaImageMetadata.fetch/_validate", "zigpy/ota/providers.py"), ("OTA.get_ota_images", "zigpy/ota/__init__.py"), ("validate_ota_image", "zigpy/ota/validators.py")])
prop("C22", "Only firmware meant for the device is offered, newest first",
 "An image is offered as an upgrade only if every constraint it declares (manufacturer, image type, hardware versions, manufacturer and model names, current-version window), in its index entry or in the downloaded file, is satisfied by the device's query and its version is newer than the device's; anything else is at most a downgrade candidate, and that too is compatible with the device. Providers carry every constraint of an index entry over to the image's description, and images known to brick devices are never offered. Candidates are ordered by version and then specificity (declaring a further constraint never makes an image less specific), different images indistinguishable by version and specificity are all withheld, and a provider or download that fails never prevents the others from being used.",
 ["inputs", "configurations", "fault_sequences"], "all image sets and device queries",
 "Tests check a few metadata combinations.",
 ["zigpy/ota/__init__.py", "zigpy/ota/providers.py"], [("check_compatibility/check_version/specificity", "zigpy/ota/__init__.py"), ("get_ota_images", "zigpy/ota/__init__.py")])
prop("C23", "A firmware transfer ends exactly once and leaves nothing behind",
 "During an update the device is sent only bytes of the selected image, at the requested offset, no more than it asked for (nor more than a radio can carry); every answer identifies that image and belongs to the request it answers; a request beyond the end ends the update with an error status. An image not for the device or not newer is refused unless forced. The update ends exactly once: with the status the device reported in its end request after being answered, and with a failure status on delivery error or stall; on every outcome its temporary listeners and timers are removed, no later request re-arms them, and the device is free for another update; two updates of one device never overlap, and while one runs the cluster's default answers are silent.",
 ["schedules", "fault_sequences", "inputs"], "all device request sequences, failures and stalls",
 "Tests simulate one cooperative device and a few failures.",
 ["zigpy/ota/manager.py", "zigpy/device.py"], [("OTAManager", "zigpy/ota/manager.py"), ("Device.update_firmware", "zigpy/device.py")])
# ------------------------------------------------------------------ lifecycle
prop("C24", "Background work is owned, restartable, failure-proof and stoppable",
 "Every background task is kept referenced until it finishes, and an unexpected failure of it is logged rather than raised elsewhere. Periodic work (backups, topology scans, firmware announcements) runs only when enabled, at its configured interval, and has exactly one instance: starting it again replaces the old loop, and stopping it — or shutting down, which also stops the watchdog — stops it for good, even in the middle of a cycle. A newer topology scan, group scan or device initialization replaces the running one, while a scheduled scan never interrupts a running one. A failing cycle of a periodic loop is logged and the loop goes on (the watchdog instead reports the lost connection exactly once and ends), and no cycle can spin without sleeping.",
 ["schedules", "fault_sequences"], "all start/stop sequences and failing cycles",
 "Tests run one cycle with mocked sleep.",
 ["zigpy/application.py", "zigpy/backups.py", "zigpy/topology.py", "zigpy/ota/__init__.py", "zigpy/util.py"],
 [("start_periodic_*/stop_periodic_*/_*_loop", "backups, topology, ota, application"), ("create_task/create_catching_task", "application, util")])
prop("C25", "Start-up failure, shutdown and probing always release the radio",
 "If connecting or initializing fails, all periodic work is stopped and the radio is disconnected (the database stays open) before the original error, or the transient-connection error derived from it, reaches the caller. Shutdown stops the watchdog and all periodic work and attempts both the radio disconnect and the database close, each even if the other failed; probing disconnects after every attempt and reports the first configuration that connected, or failure after trying every configuration. An unformed network is formed (or the newest backup restored) only when asked to; a network whose settings contradict the newest backup is not started when validation is enabled; the watchdog is fed before the radio is used and joining is closed after start-up.",
 ["fault_sequences", "configurations"], "a failure at any step of start-up or shutdown",
 "Tests fail a few selected steps.",
 ["zigpy/application.py"], [("startup/initialize/shutdown/probe", "zigpy/application.py")])
# ------------------------------------------------------------------ types/tables
prop("C26", "Decoders never read past their input and encoders mirror them",
 "The decoders of integers, floats, length-prefixed bytes and strings, bit groups and structs check that enough bytes are present before using them and reject short input with the value error callers rely on; every composite decoder hands the next field exactly what the previous one left and returns the bytes it did not consume unchanged. For every wire type, decoding what the type encoded gives back the value: field order, length-prefix width and meaning, byte order, signedness, bit packing, conditional and optional fields, float formats and the invalid marker of character strings agree on both sides. Out-of-range integers and values too long for their length prefix are refused rather than wrapped or truncated.",
 ["inputs"], "every type and every byte string",
 "Tests decode a few vectors per type; lengths at the boundaries and non-ASCII text are rarely included.",
 ["zigpy/types/basic.py", "zigpy/types/struct.py", "zigpy/types/named.py", "zigpy/zcl/foundation.py", "zigpy/zdo/types.py", "zigpy/ota/image.py"],
 [("serialize/deserialize pairs", "zigpy/types, foundation, zdo/types, ota/image")])
prop("C27", "Protocol definition tables are unambiguous and internally consistent",
 "Within a cluster, attribute identifiers and names are unique, command identifiers are unique per direction, and every definition has a wire type known to the stack; cluster identifiers and attribute-access names are unique across the library so lookup by either is unambiguous. The data-type table maps each type identifier to one class with the size, signedness, classification and non-value the standard prescribes, members of an enumeration have distinct values, structures can be decoded in one pass, and identifiers (profile, cluster, endpoint, network address, group) have the same width wherever they appear. The general, management and core cluster commands, their enumerations and structures carry the identifiers, field order, widths and presence conditions the standard assigns, request and response definitions pair up, responses travel as responses, and every management or cluster command the stack itself sends, unpacks or handles agrees with its definition in the number and names of its fields.",
 ["inputs", "programs"], "all clusters, attributes, commands and data types",
 "Tests check a few global invariants; nothing checks all tables against each other.",
 ["zigpy/zcl/clusters/", "zigpy/zcl/foundation.py", "zigpy/zdo/types.py", "zigpy/profiles/"],
 [("AttributeDefs/ServerCommandDefs/ClientCommandDefs", "zigpy/zcl/clusters"), ("DATA_TYPES, GENERAL_COMMANDS", "zigpy/zcl/foundation.py"), ("CLUSTERS", "zigpy/zdo/types.py")])
prop("C28", "Quirk replacement is exact, deterministic and preserves device state",
 "A device is replaced by a quirk only when every criterion the quirk declares (model, manufacturer, endpoints, profiles, device types, input and output clusters, filters) matches exactly, more specific registrations being tried before wildcards and the newest registration first; two declarative quirks which both match are reported rather than resolved arbitrarily. The replacement keeps the device's identity, addresses, signal and last-seen data, relays, descriptor, status and names unless the quirk overrides them, gives each endpoint exactly the declared clusters in their declared role, and takes the device's place; an already replaced device is never replaced again. A declarative quirk starts from the device's own layout, applies each declaration once, in order and as it was written, and keeps the attribute values cached for the device; constant attributes are answered from the quirk without asking the device.",
 ["programs", "inputs"], "all quirks and device signatures",
 "Tests register a few quirks; field copies and matching clauses are sampled.",
 ["zigpy/quirks/__init__.py", "zigpy/quirks/registry.py", "zigpy/quirks/v2/__init__.py"],
 [("signature_matches, DeviceRegistry.get_device, BaseCustomDevice, CustomDeviceV2", "zigpy/quirks")])
prop("C29", "Outgoing frames are addressed and numbered exactly as requested",
 "Each send primitive (unicast, multicast, broadcast, group, OTA notification) hands the radio exactly one frame whose destination mode and address, source, endpoints, profile, cluster, transaction number, payload, radius, acknowledgement option, priority and source route are those requested by the caller, without any argument being dropped or swapped on the way through the layers; ZDO helpers (bind, unbind, leave, permit, broadcast) put every argument in the place the command's definition gives it, and the answer made up for a group request names the command that was sent. Transaction numbers stay within one byte and advance on every new request, and incoming frames are matched to devices by the address mode they carry, with the active coordinator preferred for its own short address.",
 ["inputs", "configurations"], "all argument combinations at every layer",
 "Tests assert a few calls with default arguments; an argument lost between layers is visible only when it differs from its default.",
 ["zigpy/application.py", "zigpy/device.py", "zigpy/endpoint.py", "zigpy/zcl/__init__.py", "zigpy/zdo/__init__.py", "zigpy/group.py"],
 [("request/mrequest/broadcast", "zigpy/application.py"), ("request/reply chain", "device, endpoint, zcl, zdo, group")])
prop("C30", "Configuration is validated completely before use",
 "Every configuration value is type- and range-checked before the application sees it (channels 11-26, network keys of exactly 16 bytes in range, one-byte sequence and update numbers, periods in their documented range, complete simple descriptors, known provider names). An invalid value is rejected with the configuration error and nothing else; a missing one gets its default, which itself satisfies the same check, or is rejected when it is required. Firmware from a local folder stays disabled unless the exact acknowledgement text is given.",
 ["configurations", "inputs"], "all configuration documents",
 "Tests try some invalid values per key.",
 ["zigpy/config/__init__.py", "zigpy/config/validators.py", "zigpy/config/defaults.py"], [("schemas and validators", "zigpy/config")])
prop("C31", "Attributes, clusters and commands are addressed by their own identity",
 "Writing attributes sends one record per known attribute, holding that attribute's own identifier, its declared ZCL type and the given value converted to the declared type; an unknown name or a value that cannot be converted is refused before anything is sent. Configuring reports sends for each attribute its own identifier, declared ZCL type, intervals and change. A manufacturer code given by the caller is always used; when none is given, a quirk's cluster adds the device's code exactly if the cluster is in the manufacturer range (0xFC00-0xFFFF) or the command or one of the attributes is manufacturer-specific; the device's code is the quirk's override if there is one, otherwise the one in its descriptor. An attribute name and its identifier lead to the same definition, a cluster identifier leads to the class registered for it (or for the range containing it) and the object keeps that identifier; every cluster of an endpoint's descriptor is kept, server clusters among its input clusters (and reachable by name) and client clusters among its output ones, existing ones are not replaced, frames go to the cluster they name, and no two devices, endpoints or clusters share mutable state.",
 ["inputs", "configurations"], "all attributes, clusters, quirks and manufacturer codes",
 "Tests write a few attributes of a few clusters; a record with a neighbour's identifier or type, or a missing manufacturer code, is only visible for the attributes tests do not use.",
 ["zigpy/zcl/__init__.py", "zigpy/quirks/__init__.py", "zigpy/endpoint.py", "zigpy/device.py"], [("records", "Cluster._write_attr_records/_attr_reporting_rec"), ("manufacturer code", "CustomCluster.*"), ("lookups", "Cluster.from_id/find_attribute, Endpoint.add_*_cluster")])
prop("C32", "Structures, addresses and packets behave as values",
 "Two wire structures are equal exactly when they are of one type and all their fields are equal; structures which are also integers compare and order as their number. A pattern matches exactly the structures of its type which agree with it on every field it sets, nested patterns included, and a structure which leaves such a field unset does not match rather than fail. A value given for a field is stored under that field and converted to its (possibly dynamic) type, or refused with a value error; None and values of the type are kept. Copies (the copy constructor, replace, as_dict) hold every field of the original, replace overrides exactly the fields given and keeps a frozen structure frozen. A frozen structure has its nested structures frozen, refuses every store, and its hash covers all its field values; a mutable structure cannot be hashed. Equal packets and addresses have equal hashes and only a packet's timestamp is left out of their comparison; an address has the type its mode says; IEEE addresses are written most significant byte first and keys in order, text of another length is refused. A device's capabilities are read from the descriptor field and flag the standard assigns to them and are unknown exactly when that field is.",
 ["inputs", "programs"], "all structures, field values and patterns",
 "Tests compare and match a few structures; falsy values, nested and unset fields are sampled rarely.",
 ["zigpy/types/struct.py", "zigpy/types/named.py", "zigpy/zdo/types.py"], [("Struct, StructField", "zigpy/types/struct.py"), ("ZigbeePacket, AddrModeAddress, EUI64, KeyData", "zigpy/types/named.py"), ("NodeDescriptor", "zigpy/zdo/types.py")])
prop("C33", "The duplicate filter, timers, counters and shared calls keep exact state",
 "A packet is dropped exactly when an equal one, ignoring only timestamp, sequence counter and signal readings, is still remembered; a duplicate neither extends the window nor reaches any handler, every packet (duplicates too) updates the time the device was last seen and the signal readings it carries, and expiry removes exactly the expired objects without ever comparing them. A rescheduled timer always has one live handle firing at or before the deadline requested last, never runs its callback before that deadline, runs it once, and can be set again from the callback or after being cancelled. A counter's value is the sum of everything counted, across roll-overs and resets of the radio's own counter, and a counter asked for by name is created once. Concurrent calls share one run only when all arguments are equal, and once it has ended (also with an error) the next call runs again. Stored routes drop the coordinator and repeated hops and keep the order of the rest; chunked iteration delivers every item once.",
 ["schedules", "histories", "inputs"], "all arrival orders, deadlines and counter readings",
 "Tests drive the debouncer and timer with a handful of times; ties, expiry of several objects and re-arming from callbacks are not explored.",
 ["zigpy/datastructures.py", "zigpy/device.py", "zigpy/state.py", "zigpy/util.py"], [("Debouncer, ReschedulableTimeout", "zigpy/datastructures.py"), ("Device.packet_received", "zigpy/device.py"), ("Counter", "zigpy/state.py"), ("combine_concurrent_calls, filter_relays, async_iterate_in_chunks", "zigpy/util.py")])
prop("C34", "Headers, schemas, definitions and enumerations say exactly what was declared",
 "A ZCL header carries the transaction number, command and maker's code it was built with; its frame control says general or cluster command, the direction asked for, a default response disabled exactly for server-to-client frames, and a maker's code exactly when one is present (0 included), also after it is set or removed. A command's compiled schema has each declared parameter, once, in order, under its declared name and type, optional exactly when marked, and refuses invalid names; it behaves as the tuple of its values. Attribute and command definitions keep their declared id, name, ZCL type (0 included), access and direction, and access letters mean exactly their rights with unknown letters refused. Each cluster's lookup tables hold every definition under its own id or name, and only non-quirk clusters enter the registry. A number outside an enumeration keeps its value, an unknown status is named by the next layer's statuses, text is read as hexadecimal, decimal or member name, and parametrised types are one per parameter list.",
 ["inputs"], "all headers, definitions, schemas and enumeration values",
 "Tests build a few headers and schemas; maker's code 0, rare access strings and unknown values of each enumeration are not covered.",
 ["zigpy/zcl/foundation.py", "zigpy/zcl/__init__.py", "zigpy/types/basic.py", "zigpy/types/named.py"], [("FrameControl, ZCLHeader, ZCLCommandDef, ZCLAttributeDef, ZCLAttributeAccess", "zigpy/zcl/foundation.py"), ("Cluster.__init_subclass__", "zigpy/zcl/__init__.py"), ("enum_factory, _IntEnumMeta, KwargTypeMeta", "zigpy/types/basic.py")])
prop("C35", "What the gateway says about itself and its devices is true",
 "The Time cluster serves seconds since 2000-01-01 UTC (local time and zone offset likewise, negative offsets included). The coordinator registers its default endpoints, with the clusters it serves, and every configured one. An energy scan asks for what the caller asked and pairs each scanned channel with its own reading; a failed scan still reports each requested channel. A device's model and manufacturer are stored exactly as reported under those names, with single reads after a combined read timed out, and its signature lists every endpoint but ZDO with its own profile, type and cluster lists. A group's virtual cluster is the standard one asked for, made once. A reply about several attributes lists all failures and only failures, one bare success otherwise; an absent descriptor is None; bind targets have a known mode, and conditional fields are sent exactly in their modes. A backup supersedes another only if compatible, with a higher frame counter and no older update. Relays go to the device they name. An install code's hash covers all its bytes, the padding and its bit length.",
 ["inputs", "configurations"], "all clocks, zones, configurations, replies, code lengths",
 "Tests use one zone, one scan, small replies and a few install codes.",
 ["zigpy/zcl/clusters/general.py", "zigpy/application.py", "zigpy/endpoint.py", "zigpy/device.py", "zigpy/group.py", "zigpy/zcl/foundation.py", "zigpy/zdo/types.py", "zigpy/backups.py", "zigpy/util.py"], [("Time.handle_read_attribute_*", "zigpy/zcl/clusters/general.py"), ("register_endpoints, energy_scan, handle_relays", "zigpy/application.py"), ("get_model_info", "zigpy/endpoint.py"), ("get_signature", "zigpy/device.py"), ("GroupEndpoint", "zigpy/group.py"), ("MultiAddress, NwkUpdate", "zigpy/zdo/types.py"), ("aes_mmo_hash", "zigpy/util.py")])
prop("C36", "Converting, copying or naming a value keeps every part of it",
 "A typed value, an attribute record or a reporting configuration built from another one of its kind equals it, whichever optional parts it has; every decoded reporting configuration, complete or not, can be copied and printed. A node descriptor built from its two raw flag bytes has exactly the fields those bytes encode, in the order and width of the standard, zero bytes included, and each other field under its own name; a packed neighbour byte likewise. A channel mask stands for exactly the channels it was made from: 11 to 26 are accepted, anything else is refused, and listing a mask with unknown bits fails instead of dropping them. The data type of a Python type is that of its nearest known ancestor, unknown otherwise. A structure built from a dictionary has every entry in its own field, nested ones converted; a structure is valid exactly if it can be encoded, and asking never fails for a value which cannot. Purging custom quirks removes every quirk of the given folder and no other, from both registries. A device's custom configuration reaches every cluster, input or output, which defines one, with the caller's arguments.",
 ["inputs", "configurations"], "all values, all byte values, all registries",
 "Tests copy complete records, use one descriptor and one quirk per folder.",
 ["zigpy/zcl/foundation.py", "zigpy/zdo/types.py", "zigpy/types/named.py", "zigpy/types/struct.py", "zigpy/quirks/registry.py", "zigpy/quirks/__init__.py"], [("TypeValue, ReadAttributeRecord, AttributeReportingConfig, DataType.from_python_type", "zigpy/zcl/foundation.py"), ("NodeDescriptor._old_constructor, Neighbor._parse_packed", "zigpy/zdo/types.py"), ("Channels", "zigpy/types/named.py"), ("from_dict, is_valid", "zigpy/types/struct.py"), ("purge_custom_quirks", "zigpy/quirks/registry.py"), ("apply_custom_configuration", "zigpy/quirks/__init__.py")])
# ------------------------------------------------------------------ not decided statically
prop("N01", "Every value survives an encode/decode round trip",
 "For every type and every value it can hold, decoding the encoding yields an equal value and no leftover bytes.",
 ["inputs"], "all values of all types", "Tests sample vectors; the claim is over all values.",
 ["zigpy/types/", "zigpy/zcl/foundation.py"], [("serialize/deserialize", "zigpy/types")])
prop("N02", "Timing windows hold in real time",
 "Measured in real time, a duplicate frame is suppressed exactly for the length of its window, database refreshes of unchanged values happen at most once per window, and a stalled firmware update is abandoned at its deadline.",
 ["schedules", "histories"], "all arrival times", "Depends on clock values.",
 ["zigpy/datastructures.py", "zigpy/device.py", "zigpy/appdb.py", "zigpy/ota/manager.py"], [("Debouncer, ReschedulableTimeout", "zigpy/datastructures.py")])
prop("N03", "The chosen channel is the least disturbed permitted one",
 "When a channel is picked automatically, no other permitted channel has a lower weighted interference score for the measured energies.",
 ["inputs"], "all energy readings", "Numerical result over measured values.",
 ["zigpy/util.py"], [("pick_optimal_channel", "zigpy/util.py")])
prop("N04", "Derived link keys equal the standard's hash of the install code",
 "For every valid install code the derived link key equals the key the Zigbee standard defines for it.",
 ["inputs"], "all install codes", "Cryptographic function value; two vectors are tested.",
 ["zigpy/util.py"], [("aes_mmo_hash", "zigpy/util.py")])
prop("N05", "Committed state survives power loss",
 "A change acknowledged as committed is present after an operating-system crash or power loss at any later instant.",
 ["crash_points"], "every crash instant", "Depends on SQLite's journal mode, the file system and the disk.",
 ["zigpy/appdb.py"], [("PRAGMA journal_mode/synchronous", "zigpy/appdb.py")])
pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
