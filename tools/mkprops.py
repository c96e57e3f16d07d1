#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run once after editing; output is committed).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,obs,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=hook)))

NOTEST="The five stable tests check one service-info fixture, one CBOR tag fixture, one encryption round trip and two COSE signatures; none starts a server, a second party, a fault or a clock. "

p("C01","Ownership transfer: a device completes only with its voucher's true owner",
 "A device running ownership transfer accepts the server's hello and later replies, and reports completion, only when the peer holds the private key of the final owner of a valid voucher chain whose header is authenticated with that device's own secret. Every reply must belong to this very run: one that is altered in transit, replayed from another run or device, signed by another key, or echoes a wrong nonce, hello hash, signature type or entry chain makes the device stop with an error. An unmodified conversation with the genuine owner is accepted.",
 ["inputs","fault_sequences","histories"],
 "for every sequence of network faults and active-attacker actions (alter any authenticated field, replay or splice replies across runs and devices, impersonate with another key or voucher) at any step of the transfer, for every device and owner key type and negotiated suite",
 NOTEST+"They never present a device with a hostile or confused owner, so nothing quantifies over attacker actions and positions.",
 ["core/device/to2/req-to2-60-HelloDevice.go","core/device/to2/req-to2-62-GetOVNextEntry.go","core/device/to2/req-to2-64-ProveDevice.go","core/device/to2/req-to2-70-Done.go","core/shared/voucher.go","core/shared/signing.crypto.go","core/shared/hashing.crypto.go"],
 [("NonceTO2ProveOV60/NonceTO2ProveDv61/NonceTO2SetupDv64","freshness binding of one run","core/device/to2/to2-common.go"),("DCHmacSecret","device secret authenticating the voucher header","core/shared/signing.misc.go")],
 [("owner signature, header HMAC, hello hash and nonce checks","core/device/to2/req-to2-60-HelloDevice.go"),("entry chain verification","core/shared/voucher.go VerifyEntries"),("setup-device signature and nonce","core/device/to2/req-to2-64-ProveDevice.go"),("done2 nonce","core/device/to2/req-to2-70-Done.go")],
 ["return values of the device-side protocol steps","messages on the simulated wire"])

p("C02","Ownership transfer: an owner serves only the device the voucher names",
 "The owner service moves past device proof, and so sends device-setup data and accepts service info or completion, only for a peer that signed this session's fresh challenge with the private key of the device certificate in the voucher it was asked for. A proof that is altered, signed by another key, made for another session's challenge, replayed, or sent under another session's token is refused with a protocol error and leaves the session unproven. A genuine proof is accepted, also after refused ones were tried on the same session.",
 ["inputs","fault_sequences","histories"],
 "for every interleaving of several device sessions and every forged, spliced, replayed or corrupted proof at any point, for every device key type and suite",
 NOTEST+"No test drives the owner service at all.",
 ["core/do/to2/listener-to2-64-ProveDevice.go","core/do/to2/listener-to2-70-Done.go","core/do/to2/common.go","core/shared/signing.crypto.go","core/shared/signing.misc.go","core/do/dbs/session.db.go"],
 [("session record","challenge nonce, device identity, last step, session key","core/do/dbs/session.db.go SessionEntry")],
 [("certificate-chain signature check","core/do/to2/listener-to2-64-ProveDevice.go"),("challenge comparison","core/do/to2/listener-to2-64-ProveDevice.go"),("completion challenge comparison","core/do/to2/listener-to2-70-Done.go")],
 ["HTTP status, Message-Type and body of every owner reply"])

p("C03","Ownership transfer sessions advance only in protocol order",
 "Within one session the owner accepts a message only if it is the protocol's next step after the last accepted one: voucher-entry requests before the device proof, the proof once entries were requested, then service-info negotiation, then service info until the owner has said it is done, then completion. A message that is early, repeated after its phase ended, out of range, or carries no or an unknown session token gets a protocol error and changes nothing, so the correct next message is still accepted afterwards. This holds whatever duplication, reordering, concurrency with other sessions, or server restart between messages.",
 ["schedules","histories","crash_points","fault_sequences"],
 "for every history of valid messages of several sessions delivered duplicated, reordered, delayed, concurrently, and across owner crashes and restarts at every storage point, checked step by step against an executable reference state machine",
 NOTEST+"Order properties quantify over delivery histories; no test delivers even two messages.",
 ["core/do/to2/listener-to2-60-HelloDevice.go","core/do/to2/listener-to2-62-GetOVNextEntry.go","core/do/to2/listener-to2-64-ProveDevice.go","core/do/to2/listener-to2-66-DeviceServiceInfoReady.go","core/do/to2/listener-to2-68-DeviceServiceInfo.go","core/do/to2/listener-to2-70-Done.go","core/do/dbs/session.db.go"],
 [("PrevCMD","last accepted step","core/do/dbs/session.db.go"),("OwnerSIMsFinishedSending","owner has announced it is done","core/do/dbs/session.db.go")],
 [("previous-command guards","core/do/to2/listener-to2-6x/70"),("session persisted before the reply","UpdateSessionEntry")],
 ["HTTP status, Message-Type and body of every owner reply"])

p("C04","Rendezvous registers only what the voucher's final owner signed just now",
 "The rendezvous service accepts a registration only in a live registration session, when it carries that session's challenge, a well-formed voucher whose ownership chain and device certificate hash verify, an address blob with usable addresses signed by the chain's final owner key, and a matching hash of the owner's data. Anything altered, spliced from another session, voucher or owner, or signed by any other key is answered with a protocol error and leaves the previously registered blob for that device untouched. A correct registration is accepted and replaces the previous one.",
 ["inputs","histories","fault_sequences"],
 "for every sequence of genuine, forged, spliced, replayed-across-sessions and corrupted registrations from several owners, interleaved and under loss, duplication and restart, for every key type and chain length",
 NOTEST+"No test registers anything.",
 ["core/rv/listener-to0.go","core/rv/ownersign.db.go","core/rv/session.db.go","core/shared/voucher.go","core/shared/hashing.crypto.go","core/shared/signing.crypto.go"],
 [("registration store","last accepted owner blob per device GUID","core/rv/ownersign.db.go")],
 [("challenge, voucher, signature and hash checks","core/rv/listener-to0.go Handle22OwnerSign"),("voucher validation","core/shared/voucher.go Validate")],
 ["registration replies","blob later returned to the genuine device"])

p("C05","Rendezvous releases to the proven device exactly the last accepted blob",
 "A device lookup ends in a redirect only for a peer that signed this session's fresh challenge with the private key of the device certificate in the registered voucher, and the blob it then receives is byte for byte the address blob of the most recent accepted registration for that device. Unknown devices, wrong keys, wrong or stale challenges, foreign or missing tokens, and tampered proofs get a protocol error and no blob. Concurrent registrations yield one of the blobs accepted by then, never a mixture and never another device's.",
 ["schedules","histories","inputs","fault_sequences"],
 "for every interleaving of registrations and lookups by several owners and devices, genuine and forged, under message faults and restarts; the history is checked against an atomic register per device",
 NOTEST+"No test performs a lookup.",
 ["core/rv/listener-to1.go","core/rv/ownersign.db.go","core/rv/session.db.go","core/device/to1/req-to1-30-HelloRV.go","core/device/to1/req-to1-32-ProveToRV.go"],
 [("lookup session","challenge, device GUID and signature type","core/rv/session.db.go")],
 [("challenge and certificate signature checks","core/rv/listener-to1.go Handle32ProveToRV")],
 ["lookup replies"])

p("C06","A rendezvous registration lives exactly as long as was agreed",
 "The wait time the rendezvous service grants is the owner's requested time, or the service's thirty-day maximum if the request is larger, and the reply states the granted value. The registration can be looked up for all of the granted time (to the second) and not after it, across server restarts and clock advances, and a new registration restarts the period with its own grant.",
 ["histories","crash_points","inputs"],
 "for every requested time from zero to the largest encodable value, every placement of lookups, re-registrations and restarts on the time axis, under simulated clocks running for months",
 NOTEST+"No test has a clock; months of server time are out of reach for a unit test.",
 ["core/rv/listener-to0.go","core/rv/ownersign.db.go"],
 [("ServerWaitSeconds","service maximum","core/rv/listener-to0.go")],
 [("minimum of requested and maximum","core/rv/listener-to0.go"),("storage entry expiry","core/rv/ownersign.db.go Save")],
 ["granted seconds in the reply","outcome of lookups at simulated times"])

p("C07","Session tokens are valid for one protocol and expire ten minutes after last use",
 "A session token issued by the rendezvous or owner service is honoured for ten minutes (to the second) after it was issued, and for an ownership-transfer session ten minutes after its last accepted step, and never later. It is honoured only by the protocol it was issued for: tokens of another protocol, expired, unknown, altered or malformed tokens get a protocol error in every message that needs one. The clock and restarts do not extend or shorten this.",
 ["histories","inputs","crash_points","configurations"],
 "for every protocol, step, token mix-up and placement of requests around the expiry instants, with restarts in between, under simulated time",
 NOTEST+"Expiry needs a controlled clock and token mix-ups need several live services sharing a store.",
 ["core/do/dbs/session.db.go","core/rv/session.db.go","core/do/to2/common.go","core/rv/listener-to0.go","core/rv/listener-to1.go","core/shared/transport.go"],
 [("session- records","token to session state with expiry","core/do/dbs/session.db.go, core/rv/session.db.go")],
 [("storage entry expiry","NewSessionEntry/UpdateSessionEntry"),("protocol tag check","core/rv/listener-to0.go, core/rv/listener-to1.go")],
 ["HTTP status and message type of each reply"])

p("C08","Onboarding completes for every supported suite once faults stop",
 "A genuine owner can register, and a genuine device can look up its owner and complete ownership transfer, for every combination of device key type, owner key type, key exchange and cipher the tools advertise, and every voucher chain length, in any environment that delivers the messages. Lost, delayed, duplicated or corrupted messages, and crashes and restarts of the servers, may fail an attempt, but once they stop a fresh attempt succeeds within a bounded number of messages. Other devices onboarding at the same time never make an attempt fail or change its result.",
 ["configurations","schedules","fault_sequences","crash_points"],
 "for all supported combinations of key, exchange and cipher types, all random values (including ones with leading zero bytes), all interleavings of several devices and all fault prefixes",
 NOTEST+"No test performs a handshake, and value-dependent failures of about one handshake in a hundred are invisible to single samples.",
 ["core/do/to2","core/rv","core/device/to1","core/device/to2","core/do/to0","core/shared/kex.crypto.go","core/shared/enc.crypto.go","main.go"],
 [("negotiated suites","what both sides derive the tunnel from","core/shared/kex.crypto.go, core/shared/enc.crypto.go")],
 [("key exchange","core/shared/kex.crypto.go"),("tunnel encryption","core/shared/enc.crypto.go")],
 ["return values of device and owner flows","messages on the simulated wire"])

p("C09","Encrypted tunnel: tampered, replayed or foreign ciphertext is never accepted",
 "After the device is proven, every message in either direction is accepted only if it is a ciphertext made with this session's key and cipher and reaches the peer unaltered. A message with any authenticated bit changed, truncated, taken from another session, or sent in clear is refused with an error on both the owner and the device side, and the owner's session state is unchanged by it. No plaintext of a protected message, private key or session key appears on the wire.",
 ["inputs","fault_sequences","histories"],
 "for every protected message in both directions, every alteration position, every cross-session splice and every supported cipher",
 NOTEST+"One round trip of one cipher is tested; no alteration, key mix-up or second cipher is.",
 ["core/shared/enc.crypto.go","core/shared/ccm/ccm.go","core/shared/kex.crypto.go","core/do/to2/common.go","core/device/to2"],
 [("SessionKey","keys derived per session","core/shared/kex.crypto.go")],
 [("authenticated encryption with bound headers","core/shared/enc.crypto.go"),("decrypt-before-dispatch","core/do/to2/common.go receiveAndDecrypt")],
 ["replies to altered messages","bytes on the simulated wire"])

p("C10","Service info is delivered exactly once, in order, in both directions",
 "Every service-info entry the device sends in an accepted message reaches the owner's validation exactly once and in order, and every entry the owner has configured for that device reaches the device exactly once and in order, one after another, with the done flag set exactly on the last. The owner answers a device that still has more to send with an empty, not-done reply, and refuses to start its own entries unless all mandatory entries have arrived. Entries configured for one device are never sent to another.",
 ["histories","schedules","inputs","crash_points"],
 "for every way of splitting entries over messages, number of owner entries, interleaving of sessions and restart between messages",
 NOTEST+"Only the pure list check for one fixture is tested, not accumulation over messages, the owner's side, or concurrency.",
 ["core/do/to2/listener-to2-68-DeviceServiceInfo.go","core/do/to2/listener-to2-66-DeviceServiceInfoReady.go","core/do/to2/common.go","core/shared/sims.tools.go","core/shared/sims.reg.go"],
 [("DeviceSIMs, OwnerSIMs, OwnerSIMsSendCounter","progress of both directions","core/do/dbs/session.db.go")],
 [("accumulate and send-one logic","core/do/to2/listener-to2-68-DeviceServiceInfo.go")],
 ["service-info replies decrypted by the device"])

p("C11","Every protocol request gets a well-formed reply; no input crashes a server",
 "Whatever bytes, headers, order, or storage failure a protocol request meets, the server answers it with either the next protocol message and success status, or an error message naming the request with a failing HTTP status, and never drops the connection or aborts. Requests with another method or content type are refused the same way. After any such request the server still serves the next correct one.",
 ["inputs","fault_sequences","histories"],
 "for every protocol message, every structural mutation, truncation or substitution of it and its headers, in every session state, with storage errors injected at any operation",
 NOTEST+"No test sends a request.",
 ["core/do/to2","core/rv","core/shared/transport.go","core/shared/error.go","core/shared/enc.crypto.go","core/shared/kex.crypto.go","core/shared/signing.crypto.go","core/shared/voucher.go","core/shared/testcom/listener"],
 [],
 [("error reply helper","core/shared/transport.go RespondFDOError"),("decode and validate before use","every listener")],
 ["HTTP status, headers, body; aborted handlers"])

p("C12","Acknowledged steps are durable; storage errors never destroy or fake data",
 "When a server acknowledges a registration, a session step, a stored voucher, a test or an account change, that effect is durable: it is there after a crash at any later point, and an operation whose storage write failed is not acknowledged as successful. A failed or aborted operation leaves every record either as before or as the operation intended, and a transient read failure never leads to existing records being overwritten or lost.",
 ["crash_points","fault_sequences","histories"],
 "for every storage operation of every request: injected read, write and commit errors and crashes just before and just after each commit, followed by restart and full read-back",
 NOTEST+"No test opens the store, let alone fails or crashes it.",
 ["core/do/dbs","core/rv/session.db.go","core/rv/ownersign.db.go","core/shared/testcom/dbs","dbs","api"],
 [("all badger records","session-, voucher-, to1osstorage-, rvte-, lstdb-, usere-, devbasecreds-, config","dbs, core/*/dbs")],
 [("commit before reply","every store method"),("error propagation","every handler")],
 ["HTTP replies","records read back after restart"])

p("C13","Conformance verdicts on servers under test are sound",
 "A test run against a correct rendezvous or owner server reports each listed test of its protocol exactly once, in the order listed, and passed. Against any other server each listed test is reported at most once, and one is left out only after a failed one. A server that wrongly accepts the invalid message of a test, replies with success or with something that is not a protocol error, or is unreachable or cut off, never gets that test passed. A correct server that breaks a positive step fails it. The run always ends and is marked finished, whatever the server or network does.",
 ["configurations","fault_sequences","inputs"],
 "for all listed tests, all single and combined deviations of a simulated server under test, network faults at any message, and every random choice inside the test generator",
 NOTEST+"No test runs the test executor; the verdict is a relation between a peer's behaviour and a report that needs a controllable peer.",
 ["testexec","core/shared/testcom/results.go","core/shared/testcom/methods.go","core/shared/testcom/req_testdir.go","core/shared/conformance.go","core/device/to1","core/device/to2","core/do/to0"],
 [("CurrentTestRun","results of the run in progress","core/shared/testcom/request/rvt.db.go")],
 [("expected-error evaluation","core/shared/testcom/results.go"),("negative message generation","core/shared/conformance.go"),("run bracketing","core/shared/testcom/dbs/reqt.db.go")],
 ["results listed by the API","messages received by the simulated server"])

p("C14","Conformance verdicts on devices under test are sound",
 "While a device test run is active, the tool's servers give that device each listed test exactly once and in the listed order, each negative reply really is invalid, and each positive reply valid. A device that stops on every invalid reply and starts over passes every test and the run completes; a device that carries on after an invalid reply gets exactly that test failed (fetching further voucher entries before verifying them is not carrying on; sending the next type of message is). Devices that are not under test, and the same device outside a run, only ever see correct replies.",
 ["histories","schedules","inputs"],
 "for both device protocols (TO1 and TO2), every position at which the device deviates, retries, or repeats a message, every random choice of the negative-reply generator, and interleaved devices and runs",
 NOTEST+"No test drives the listener state machine or checks that a generated bad message is bad.",
 ["core/shared/testcom/listener","core/shared/testcom/listener_testdir.go","core/shared/conformance.go","core/do/to2","core/rv/listener-to1.go"],
 [("RequestListenerRunnerInst","current test index, expected command, history","core/shared/testcom/listener/listenert.db.go")],
 [("listener runner state machine","core/shared/testcom/listener"),("fuzzed replies","core/shared/conformance.go")],
 ["replies on the wire","results listed by the API"])

p("C15","Test-run history: every run kept once, under its own test, until deleted",
 "Every started run of a test appears in its test's history exactly once, with its own results in the order reported and its own protocol, newest first, and keeps them unchanged when later runs start, finish or are removed. Removing a run removes exactly that run, and it stays removed whatever happens to a run in progress; starting a run while one is active does not lose the active one. The history survives restarts.",
 ["histories","schedules","crash_points"],
 "for every sequence and interleaving of create, start, report, finish, remove and list over several tests and users, with crashes and restarts, checked against a reference list model",
 NOTEST+"History is a multi-step stored state no test touches.",
 ["core/shared/testcom/dbs/reqt.db.go","core/shared/testcom/dbs/listener.db.go","core/shared/testcom/listener","core/shared/testcom/request/rvt.db.go","api/testapi"],
 [("TestsHistory/CurrentTestRun","stored runs","core/shared/testcom/request/rvt.db.go, core/shared/testcom/listener/listenert.db.go")],
 [("start/report/finish/remove run","core/shared/testcom/dbs/reqt.db.go, core/shared/testcom/listener")],
 ["test lists returned by the API"])

p("C16","API: only a logged-in user, and only for that user's own tests",
 "Every test-management call without a valid, unexpired login session is refused and changes nothing; logging out ends the session at once, and a session ends seven days after login. A logged-in user can list, start, fetch, delete and purge tests of the own account only: identifiers of other users' tests are refused and leave those tests unchanged. What a user created stays listed until that user removes it or its six months of storage end.",
 ["histories","schedules","inputs"],
 "for every sequence of calls by several users and anonymous clients with valid, stale, swapped and forged sessions and identifiers, over simulated days and restarts",
 NOTEST+"No test calls the API.",
 ["api","api/commonapi","api/testapi","dbs/session.db.go","dbs/user.db.go"],
 [("session cookie record","login with expiry","dbs/session.db.go"),("user record","tests owned by a user","dbs/user.structs.db.go")],
 [("session check in every handler","api/commonapi/common.go"),("ownership check","api/testapi")],
 ["HTTP replies","records read back"])

p("C17","Seeding and voucher storage are all-or-nothing usable after any crash",
 "Whenever the tools consider themselves seeded, every device credential the configuration names can be read and is usable, whatever crash or storage error interrupted seeding before; an interrupted seeding is redone at the next start. Every stored voucher is returned exactly as stored, listed exactly once, and replaced only by storing the same device again. A test's vouchers and credentials all remain retrievable, each with its matching private keys and its intended defect only.",
 ["crash_points","schedules","fault_sequences"],
 "for every crash and storage-error point during seeding with all its worker interleavings, and every sequence of voucher saves, lists and restarts",
 NOTEST+"Seeding is never run by a test, nor is anything crashed.",
 ["seeding.setup.go","main.go","dbs/config.db.go","dbs/devicebase.db.go","core/do/dbs/voucher.db.go","core/device/genvoucher.go","core/shared/distuff.go"],
 [("config record","list of seeded credentials","dbs/config.db.go"),("devbasecreds- records","seeded credentials","dbs/devicebase.db.go")],
 [("configuration written last","seeding.setup.go PreSeed")],
 ["records read back after restart","vouchers and credentials used in a handshake"])

p("C18","Nonces, tokens, keys and IVs are never reused",
 "Across all sessions, devices, protocols and restarts, every challenge nonce, session token, key-exchange contribution, session key and, under one key, every encryption initialisation vector the tools produce is used once only. They do not depend on the clock or on values chosen by the peer.",
 ["histories","schedules","crash_points"],
 "over whole simulated deployments: every value sent on the wire or stored in any run, with concurrent sessions, equal clocks, duplicate requests and restarts",
 NOTEST+"Uniqueness is a statement about whole histories; each test makes one value.",
 ["core/shared/other.go","core/shared/kex.crypto.go","core/shared/enc.crypto.go","core/do/dbs/session.db.go","core/rv/session.db.go","dbs/session.db.go"],
 [],
 [("random generation per use","core/shared/other.go NewRandomBuffer, NewFdoNonce")],
 ["bytes on the simulated wire"])

p("C19","Interoperability events are reported once per success and never change outcomes",
 "With interoperability reporting on, each successful registration, lookup and ownership transfer outside a conformance test produces exactly one event per reporting role (rendezvous, owner, and the device itself), carrying that device's identity, that protocol, that session's nonce and the credential configured for that role, and failed ones and conformance negatives produce none; with reporting off nothing is sent. A dashboard that is down, slow, or answers with errors never changes the protocol outcome.",
 ["configurations","fault_sequences","schedules"],
 "for every protocol outcome and every dashboard behaviour (healthy, refusing, erroring, dropping, slow) in every interleaving",
 NOTEST+"No test has a dashboard.",
 ["core/shared/interop.go","core/rv/listener-to0.go","core/rv/listener-to1.go","core/do/to2/listener-to2-70-Done.go","main.go"],
 [],
 [("event submission after acceptance, errors only logged","core/rv/listener-to0.go, core/rv/listener-to1.go, core/do/to2/listener-to2-70-Done.go")],
 ["requests received by the simulated dashboard","protocol replies"])

p("C20","Data encodings, digests and key derivations agree with their definitions",
 "Encoding then decoding any protocol structure yields the same structure, rendezvous directives survive conversion to and from addresses, and digests, signatures and key derivation produce the values their standards define. Vouchers and credentials survive export to and import from text files.",
 ["inputs"],
 "for every value of every structure",
 NOTEST+"Fixtures cover a few values.",
 ["core/shared/cbor.go","core/shared/rvinfo.go","core/shared/hashing.crypto.go","core/shared/kex.crypto.go","core/do/to0/common.go"],
 [],[("codec","core/shared/cbor.go"),("conversion","core/shared/rvinfo.go")],["return values"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
