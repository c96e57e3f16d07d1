"""Per-property settings of the checks."""
REAL = ["core/shared", "core/device (TO1, TO2 clients)", "core/do (TO0 client, TO2 server, stores)", "core/rv (server, stores)", "badger v4 (in memory)", "net/http client and mux", "Go crypto"]
STUB = ["network (simulated transport)", "clock (synctest)", "random source (seeded)", "disk below badger (in-memory mode; process crash keeps committed transactions)"]
ASSUME = ["A committed badger transaction survives a process crash and an uncommitted one does not (badger's own contract; the disk below it is not simulated).",
          "Simulated clocks only move forward and all parties share one clock.",
          "Server tasks interleave at storage operations, network sends and message deliveries; code between two such points runs without interruption."]
NOT_APPLICABLE = {
    "C20": "Encoders, digests, signatures and key derivations are pure functions of their arguments: no schedule, clock, network, storage or peer behaviour can change their result, so simulation and fault injection decide nothing here.",
}
PROPS = {
    "C01": dict(level="exploration", rule="distinct (attack, place, suite) combinations evaluated",
                note="Seeded search over device suites, chain lengths, earlier and concurrent sessions, and one lie per run (altered, replayed, re-signed or re-sealed reply, or a dishonest owner's forged chain), against the real device code and the real command line program."),
    "C02": dict(level="exploration", rule="distinct (attack, key types, key exchange) combinations evaluated",
                note="Seeded search over false proofs put on a real device's connection before, between and after its genuine one, with crashes and concurrent sessions; every accepted proof is verified independently of the code."),
    "C03": dict(level="exploration", rule="distinct message histories (message kinds, outcomes, overlaps) of a session",
                note="Seeded search over orders, overlaps, duplicates, losses, storage errors and crashes of hand-driven sessions; every history is checked for an explaining order of a small reference model, and every live session must still complete."),
    "C09": dict(level="exploration", rule="distinct (direction, forgery, suite, stage) combinations evaluated",
                note="Seeded search over a wire attacker that alters, replays, cuts, re-keys and redirects sealed messages in both directions; every ciphertext on the wire is opened by an independent implementation of key exchange, key derivation and AEAD from the two secrets."),
    "C04": dict(level="exploration", rule="distinct (lie, defect, owner key) combinations and lookup histories evaluated",
                note="Seeded search over registrations that are altered, spliced, replayed, re-signed or built on defective vouchers, between and beside genuine ones, with storage errors, crashes and network faults; every accepted registration is verified by an independent implementation, and the lookups must be explained by the accepted registrations alone."),
    "C05": dict(level="exploration", rule="distinct histories (order and overlap of registrations and lookups) and proof lies evaluated",
                note="Seeded search over overlapping registrations and lookups, a second device of the same identity, false proofs, crashes, storage errors and network faults; every released blob is checked against an independent proof verification and a linearizability search over the history."),
    "C06": dict(level="exploration", rule="distinct (requested time, renewal, moment of lookup) combinations evaluated",
                note="Seeded search over requested times, renewals, restarts and lookups within and around the second in which a registration ends, over simulated months."),
    "C07": dict(level="exploration", rule="distinct (message, token form) and (message, token age) combinations evaluated",
                note="Seeded search over sessions of the three protocols taken forward with waits that end near the ten-minute limit, wrong tokens in every message, refused messages in between, and restarts."),
    "C10": dict(level="exploration", rule="distinct (split of the device's entries, number of owner entries, fault mode, defect) combinations evaluated",
                note="Seeded search over ways to split, order, repeat and spoil device entries and over the number of owner entries, with several sessions side by side, disk faults, lost messages and restarts; every message is judged by a reference model, and the owner's record must be the concatenation of the accepted messages."),
    "C18": dict(level="exploration", rule="distinct (burst, suite, timing, fault) combinations evaluated",
                note="Seeded search over bursts of equal requests at equal instants, duplicates, repeated ciphertexts, concurrent transfers of one device and restarts; every nonce, token, key-exchange contribution, secret and IV of the run must be new, and whole populations of values must vary in every byte."),
    "C11": dict(level="exploration", rule="distinct (request, alteration) combinations answered",
                note="Seeded search over altered, misplaced, malformed and unreadable requests at every step of every protocol (alterations also inside signatures and encryption), odd stored vouchers and disk faults; every reply is judged, and correct requests must be served afterwards."),
    "C19": dict(level="exploration", rule="distinct (dashboard behaviour, who reports, sequence of outcomes) combinations evaluated",
                note="Seeded search over registrations, lookups, transfers (real clients and the command line program), failed and false attempts and conformance runs, with a dashboard that is down, slow, silent or talks nonsense; the multiset of reports must equal the multiset of accepted last messages, and with only the dashboard at fault every attempt must succeed."),
    "C16": dict(level="exploration", rule="distinct (sequence of calls, credentials, kinds) histories evaluated",
                note="Seeded search over calls of three users and of clients without a valid login (stale, swapped, forged and foreign credentials and identifiers), over simulated days and months with restarts, against an exact reference model of sessions, tests and runs; and over overlapping calls with storage errors and crashes, judged by their order."),
    "C15": dict(level="exploration", rule="distinct (clients, faults, sequence of starts and removals) histories evaluated",
                note="Seeded search over started, executed, reported, finished and removed runs of several tests and users, one call at a time or overlapping, with devices talking meanwhile, storage errors, crashes and restarts; every list read must be explained by the calls around it, each result carries the run it was made for, and no run may change once over."),
    "C14": dict(level="exploration", rule="distinct (protocol, state of the run, faults) combinations whose results were compared",
                note="Seeded search over devices that stop, retry, carry on, send messages out of order, malformed or repeated ones, and runs that are started anew or removed meanwhile, with storage errors, crashes and lost messages; every reply and every listed result must be what a reference model of the run allows, and the repository's own device must pass all tests in the end."),
    "C13": dict(level="exploration", rule="distinct (deviations, verdict counts per run) combinations whose verdicts were compared",
                note="Seeded search over a server under test that is the repository's own, except where the plan of a run makes it refuse, accept, answer wrongly, cut off, stall, hang or crash; every verdict must be what the messages of that very test allow, every listed test be run in its place, and every run end."),
    "C12": dict(level="exploration", rule="distinct (operation, kind and place of the fault, outcome) combinations evaluated",
                note="Seeded search over sequences of registrations, onboarding steps, logins, creations, executions, starts, removals, purges and reads, each under a read, write or commit error or a crash at a drawn storage operation; after each, every record and everything users see must be as before or as the acknowledged operation intended, and again after restarts."),
    "C17": dict(level="exploration", rule="distinct (mode, operation, kind of fault, outcome) combinations and voucher shapes evaluated",
                note="Seeded search over seeding attempts with all worker interleavings at the credential draws, crashes and storage errors anywhere, and repeated starts; over sequences of loading, saving, replacing, reading, listing and pushing vouchers under faults; and over the vouchers made for tests, each judged by an independent reading of voucher, credential and keys and used in a handshake."),
    "C08": dict(level="exploration", rule="distinct (suite, chain length, stage) combinations evaluated",
                note="Seeded search over network faults, storage errors, crashes and restarts with several devices at once; after the faults stop one attempt per device must succeed."),
}
