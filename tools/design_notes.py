# Per property: how it is decided, against what oracle, and within which bounds.
N={
"C01":"Two in-memory parties (own stores), session from a bundle with and without one-time prekey. Oracle: decrypted bytes equal the symbolic plaintext; both records agree. Bounds: plaintexts 0–17 symbolic bytes, conversations of up to 4 (quick) / 6 messages, every alternation. Tests sample no session at all.",
"C02":"All schedules of sends and deliveries (each an enumerated choice), with symbolic plaintexts; oracle: each delivered message gives its own plaintext. Bounds: 3–5 messages per schedule, up to three ratchet steps, gap 60 quick, the documented 2000 in thorough.",
"C03":"As C02, every message delivered once is presented again, at once and at the end, also after session replacement, restart and a failing store. Claims hold while session state is kept (if the session is deleted, the protocol has no memory).",
"C04":"Bad messages of every forged kind (`vfForge`) at every point of a conversation; oracle: snapshot of the store before = after, and all genuine messages still decrypt.",
"C05":"Every byte of a genuine message altered by a symbolic non-zero mask (framing by concrete flips), truncated, cut, extended; forged headers; misdirection between three parties. The registration id and the encoding of the outer prekey header are not authenticated by the protocol and left out.",
"C06":"Sends, receptions, store failures and crashes in every order (≤4 steps quick); oracle: all (ratchet key, counter) pairs handed out are distinct and consecutive, the stored record is already past them, keys differ.",
"C07":"Second contact as sender or receiver with any other identity key (symbolic, or differing in one symbolic bit): refusal and unchanged stores. Also the file-backed identity store: first contacts recorded, restarts (also after failed writes), other keys refused, names kept apart, with and without encryption.",
"C08":"Bundles with any altered signed prekey, signature or identity; oracle: error and unchanged stores; good bundles work.",
"C09":"First messages accepted/refused, store failure or crash at every store operation; oracle: set of prekeys removed.",
"C10":"Counters are symbolic 32-bit values; chains, archived sessions and skipped keys counted after each step; `vfMustEnd` bounds the derivations (a larger but finite skip limit is not a violation, endless chasing is).",
"C11":"The record is serialised and reloaded at every stage; differential oracle: the reloaded and the in-memory session accept the same messages with the same results.",
"C12":"Arbitrary byte strings up to 4–5 symbolic bytes, and well-formed messages with every subset of fields and odd lengths; oracle: no panic.",
"C13":"Symbolic plaintext, IV and key; lengths 0–33 for the round trip; any ciphertext (as encryption of arbitrary blocks) of up to 3 blocks and any padding.",
"C14":"Every stored kind; damage = any cut, any extension, any bit flip of a stored file (concrete positions, all enumerated), wrong password; any short file symbolic. The MAC does not bind file names and an unencrypted store has none: outside the claim.",
"C15":"Every crash point of every save (key, prekeys, sessions, identity, registration data), then a reopened store; oracle: complete old or complete new value, neighbours untouched.",
"C16":"Two correspondents with symbolic ids (digits, one symbolic character each) and devices; any operation on one; oracle: the other's session is intact and listings are exact. Ids with separators: all file operations recorded stay in the directory.",
"C17":"The random starting id is symbolic over windows of 8 at both ends and in the middle of the id space (`VC17_AnyStart`, thorough: any), batch ≤2 quick/3 thorough.",
"C18":"Upload and fetch through the fake storage server; alterations of object, key, digest at every byte (bit flips), any short symbolic object.",
"C19":"Envelopes made with the stored signaling key; altered at any byte, any version byte, any short content.",
"C20":"Every subset of present/absent optional fields of envelope, content, data, sync, group, receipt, typing and call messages with odd values; symbolic content bytes (≤4 quick/5). Oracle: no panic. Empty strings/bytes in thorough.",
"C21":"Messages of other correspondents and of own devices; oracle: which handlers ran and which sessions/files changed.",
"C22":"Fake server that reports mismatched/stale devices (symbolic device ids 1–3 and status codes), missing or malformed prekeys, or never takes the message; oracle: a reference set of devices after each report, the ciphertexts decrypt on exactly these devices, and bounded number of requests. Messages to the user's own devices run through the same answers.",
"C23":"Contents of symbolic bytes at lengths around the steps of 160; oracle: identity, length step, no write to the caller's memory.",
"C24":"Symbolic identity keys and identifiers; iterated hash checked once in full (5200 rounds, concrete) and with the iteration abstracted by an uninterpreted function; decimal encoding of each chunk exact. What the application is shown (`GetFingerprint`) is compared with that of the account's number and the recorded identity.",
"C25":"Names of up to 53+ bytes (printable ones through JSON, any bytes below it), nonce freshness (`vfFresh`), any alteration, any subset of fields, any server answer (malformed JSON, nulls, other account). GetProfile leaves fields out that do not decrypt. Credentials are issued by a zkgroup server of the harness (its public parameters stand in for the constant of the repository, in the engine and in native replays alike): genuine ones, another server's, for another account or key, altered and cut ones; what is accepted is presented and verified as the server would.",
"C26":"Provisioning messages sealed to the linking device's key with symbolic fields; the harness plays the other side and opens them with its own implementation (agreement, key derivation, MAC, CBC). Fresh keys by `vfFresh`. Malformed keys and tokens of every length: error, nothing sent.",
"C27":"Lists of up to 3 numbers with symbolic digits; the harness plays the enclave (own X25519 keys, AES-GCM), opens the query as the enclave would and reads numbers, order, nonce and commitment back. Malformed attestations and answers: every field missing, null, or of any length up to the bound. The SGX quote and the IAS signature of attestations are not verified by the code (`stripped`) and nothing is claimed about them.",
"C28":"Symbolic keys, nonces and messages through the real signing code over uninterpreted curve operations with group axioms; oracle: same answer twice, inputs unchanged, wrong ones refused.",
"C29":"All shapes of a group of three (actor and one other: outside, member, invited, asking; a third: outside or member), symbolic roles, access settings, password and group the actor acts in; changes naming one or two of the three; oracle: a separate reference model of the rules and of the group after the change. The appliers and validators are called directly: `ModifyGroup`, which would call them, works with an unconfigured validator (title limit 0) and so never succeeds; it is called by nobody and nothing is claimed about it. `ValidateAddMember` is claimed only to refuse without proof (it also refuses genuine proofs). Whether somebody asking to join may be invited is left open (C30 refuses the result). Timers are not applied by the code.",
"C30":"Symbolic texts at lengths around their limits, symbolic access settings, passwords of 0, 1 and 16 bytes; up to four people (thorough five) in any lists with symbolic ids and roles and limits of three. UNKNOWN access settings are left open (older groups), as is MEMBER for links; the length of passwords is not checked by the code and not claimed.",
"C31":"Groups of up to four members; a fake server whose users decrypt what they get (`common_world.go`), so that recipients and contents are judged at the receiving end. Texts, timers and revisions are concrete samples here (symbolic contents under session encryption are too slow; C41 has them symbolic without it). The protocol no longer carries legacy group contexts, so incoming legacy updates are checked at the functions that handle them.",
"C32":"Any short bytes, any inner bytes, any subset of fields, any cut and any bit flip; expiry symbolic within a decade but not within a minute of now.",
"C33":"Every method of the transports with symbolic path parts, bodies and status; every caller in the root package against every status (symbolic) and misleading bodies. Known finding: InsecureSkipVerify (`no-certificate-check`).",
"C34":"The backend is the websocket fake (below); requests from concurrent callers under every schedule with at most one preemption (two in the thorough tier), answers arriving before the caller waits, answers nobody asked for, malformed answers, and the end of the connection at every place. Answers carry no request id, so \"its own\" is defined by the order of the requests on the connection.",
"C35":"Exact inverse functions on symbolic values (base64 ≤8 bytes, ids, varints of 64 bits, file names of 24-bit ids) and arbitrary junk text.",
"C36":"Three contacts with symbolic ids, keys and names; any update on one, then all compared with a reference copy, before and after reloading the YAML file. Incoming messages and sent copies go through the real receive path. Unidentified access: keys derived per contact. YAML text is produced by the real marshaller; foreign YAML texts are concrete samples.",
"C37":"The server is the websocket fake; sequences of up to three frames of every kind (request, answer, empty, junk, unknown type) with symbolic ids. Oracle: list of messages handed on and acknowledgements seen by the server, with their order. Messages that cannot be decrypted are acknowledged as well (as the service expects: they would be delivered for ever otherwise); a frame that is no websocket message ends the connection with an error, as a broken connection does.",
"C38":"Symbolic titles/roles/ciphertexts under the stand-in group cipher; refusals by signature; several groups on disk; credentials around the day boundary. `VC38_Served` and `VC38_Join` use a zkgroup server of the harness (substituted public parameters): it checks the presented credential and its day, decides on changes, signs them; changes signed by it, by another server, not at all, or altered after signing; refusals and damaged answers to the acceptance of an invitation.",
"C39":"`vfFresh` executes the generator twice with everything equal but the secure random draws (same clock, same math/rand stream, same store), and asks the solver for each bit whether it can differ, and for each pair of bytes whether they can differ; fixed bits (X25519 clamping) are masked. A bit that cannot differ is predictable.",
"C40":"Every crash point of every save (between and in the middle of the file operations), symbolic contents, then a fresh start; oracle: complete old or complete new, neighbours untouched. Cached avatars are left out: they can be fetched again.",
"C41":"Symbolic texts, times, ids and flags through the real encoding, padding and handling code in a loop, without session encryption; every kind of sending end to end with it, with concrete contents, judged by what the recipient's application is given. Messages of sessions kept under a phone number (older clients) are delivered as well. The application learns of flags only the end of a session and profile key updates.",
"C42":"The harness plays the linked device: it decrypts the answer, fetches the object, takes it apart and compares with the address book or groups (names, blocks and timers symbolic).",
"C43":"The service is a fake behind the real HTTP client (`common_signup.go`): any one step of registration answers with a failure (symbolic status, missing or malformed parts) or something stands in the way of a file that has to be written, or the process stops at any file operation; then `Setup` runs again. Oracle: what the service publishes equals what the store holds (each prekey's public part, the signed prekey's signature), or the second start registers again. The backend process is replaced by a stand-in (`crayfish.Run` → `VfRun`, engine and native replay alike). The application being told more than once is not claimed to be wrong; a stop between the upload and the storing of the last-resort key leads to a new registration. Batch of one prekey.",
"C44":"A registration over the settings of an earlier one is stopped at every file operation (`VC44_Interrupted`) and started again. Setup twice and more over the same files with the same fake; every stored file damaged, cut or removed in between, symbolic wrong passwords, other settings; oracle: all account data equal, or refused with every file as before. `VC44_Settings`: every field symbolic, through the YAML file. `VC44_Credential`: credentials issued by a zkgroup server of the harness, kept over starts, fetched again when missing or of another key. Errors after the registration (such as a credential that cannot be fetched) may be reported by Setup.",
"C45":"Requests read at the fake server; symbolic status, profile key, name and token, each capability alone, all and none. The access key is compared with the one `GetTargetUnidentifiedAccessKey` derives for a contact with this profile key. The harness plays the linked device and opens the provisioning messages of up to two (thorough three) attempts, with a failing code request, refused or lost message, or bad key each. When the attributes were taken but the profile cannot be fetched, an error is reported, and the settings are left open. That a code that was taken may be used again within its ten seconds is left open.",
"C46":"The store of the harness has the same lock as the client's, and each of its operations is one step; the engine explores every order of the steps of two goroutines with one preemption (thorough: two). The goroutines are symbolic schedules over concrete keys (a key or text does not influence the order of the steps). A send that runs into a concurrent deletion of the session (410, end of session) may give an error. Unsynchronised access to the exported maps of contacts and groups, which the application shares, is not claimed.",
"C47":"The file operations of the repository go through the engine's file system; VC47_Interrupted repeats the save with a stop at each operation (process stop, not power loss). Identifiers are concrete lists (look-alikes, path elements), contents symbolic.",
}
