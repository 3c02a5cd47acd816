#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; edit here, then run."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Both ends of a new session agree, and conversations decrypt exactly",
"When one party starts a session from the other's published prekey bundle (with or without a one-time prekey), the receiver's first decryption establishes a matching session and yields exactly the plaintext that was sent. Replies and further messages in both directions, including messages sent before the first reply arrives, likewise decrypt to exactly what was encrypted.",
["inputs","histories"],"All key material, all plaintext contents and lengths within the stated bounds, with and without one-time prekey, and every alternation of senders up to the stated number of messages.",
"No stable test runs a session at all; the repository's session test covers one fixed conversation with fixed keys.",
["axolotl/session.go","axolotl/ratchet.go","axolotl/keys.go","axolotl/messages.go"],
[("three/four Diffie-Hellman agreement and root/chain key derivation","axolotl/session.go, axolotl/ratchet.go"),("prekey message carries base key, identity and prekey ids","axolotl/messages.go")],
[("session state","root key, sender chain, receiver chains","axolotl/session.go")],["SessionEncryptMessage","SessionDecryptPreKeyWhisperMessage","SessionDecryptWhisperMessage"])

p("C02","Messages delivered late or out of order still decrypt correctly",
"Whatever order the network delivers a set of genuine messages of a session in, including across ratchet steps, each one decrypts to exactly the plaintext it was sent with, as long as it skips no more than the documented number of messages and its chain is among those kept.",
["schedules","histories","inputs"],"Every delivery order (permutation, delay, loss) of the messages sent in a conversation up to the stated length, for arbitrary plaintexts.",
"Tests deliver messages in a handful of fixed orders; the number of interleavings of deliveries, losses and ratchet steps is unbounded.",
["axolotl/session.go","axolotl/ratchet.go"],
[("skipped message keys are kept per receiver chain and looked up by counter","axolotl/session.go"),("chain key stepping","axolotl/ratchet.go")],
[("message keys","skipped keys per receiver chain","axolotl/session.go")])

p("C03","No message is ever accepted twice",
"Once a message has been decrypted successfully, presenting the same message again (in any later state of the session, after any other traffic, session replacement or restart) is refused with an error and yields no plaintext.",
["histories","schedules","inputs"],"Every history of accepted messages up to the stated length, including session re-establishment and a return to an earlier session state, followed by a replay of any of them.",
"A replay must be refused in every reachable state; a test can sample only a few histories, and the stable tests contain none.",
["axolotl/session.go"],
[("used message keys are deleted and old counters refused","axolotl/session.go"),("previous session states","axolotl/session.go")],
[("previous states","archived session states that may still decrypt","axolotl/session.go")])

p("C04","A rejected message changes nothing",
"A message that fails to decrypt, for any reason, leaves the stored session, the stored prekeys and the trusted identities exactly as they were, and every genuine message that would have decrypted before still decrypts afterwards. It also leaves nothing behind that a later successful decryption would write to storage.",
["inputs","histories","fault_sequences"],"Every altered, forged or inapplicable message (any counter, ratchet key, ciphertext, MAC), at every point of a bounded conversation, in sessions with and without archived states.",
"Requires considering every possible bad message in every session state; tests exercise none.",
["axolotl/session.go"],
[("state is stored only after a successful decryption; trials must not leak into stored states","axolotl/session.go")])

p("C05","Altered, misdirected or forged messages are refused",
"A message is accepted only if it is authenticated, in full, by the keys of the session it is processed in: any change to any byte of a genuine message, its truncation or extension, or its presentation in a session with a different pair of identities, leads to an error and no plaintext.",
["inputs"],"Every modification of a genuine message (any byte values, any position, truncation or extension within the bound), every pair of identity keys.",
"The space of modifications is far beyond sampling, and nothing in the stable tests covers message authentication of sessions.",
["axolotl/messages.go","axolotl/session.go"],
[("MAC over both identities, version and the whole serialized message","axolotl/messages.go")],None,["SessionDecryptWhisperMessage","verifyMAC"])

p("C06","Message keys are never reused and are persisted before use is visible",
"Every message sent in a session uses a fresh key and the next counter of its chain, and the advanced state is in the store before the ciphertext is handed to the caller, so no crash or reload between sends can lead to the same key and counter protecting two messages. If the state cannot be stored, no ciphertext is released.",
["crash_points","histories","inputs","fault_sequences"],"Every sequence of sends and reloads up to the bound, a crash or a store failure at any store operation.",
"Tests send at most a couple of messages through an in-memory store that never fails.",
["axolotl/session.go","axolotl/ratchet.go"],
[("chain key advanced and stored before the message is returned","axolotl/session.go")])

p("C07","A changed identity key is never silently accepted",
"Once an identity key has been recorded for a correspondent, any bundle or incoming message presenting a different identity key is refused without starting or replacing a session, changing the recorded identity or consuming a prekey; the first identity seen is trusted and recorded.",
["inputs","histories"],"All pairs of recorded and presented identity keys (any byte difference), for bundles and incoming prekey messages, first contact and later contact.",
"The store's trust rule has no stable test, and equality must hold for all key values.",
["axolotl/session.go","store.go"],
[("trust check before a session is built","axolotl/session.go"),("trust on first use in the file store","store.go")])

p("C08","Only correctly signed prekey bundles start a session",
"A sender session is built from a prekey bundle only when the bundle's signed prekey carries a valid signature by the bundle's identity key over the serialized signed prekey; otherwise an error is returned and neither the session store nor the identity store changes.",
["inputs"],"All bundles: any keys, any signature outcome, signed prekey present or absent.",
"A test can try a few bad signatures; the guarantee is about every path that builds a session.",
["axolotl/session.go","curve25519sign/curve25519sign.go"],
[("signature verified before key agreement","axolotl/session.go")])

p("C09","One-time prekeys are used once, and only by accepted messages",
"Accepting a first message that names a one-time prekey removes exactly that prekey from the store, and the last-resort prekey is never removed. A message that is refused, or whose resulting session could not be stored, removes no prekey, so a redelivery after a failure or crash still decrypts.",
["inputs","crash_points","fault_sequences","histories"],"All prekey ids, accepted and refused messages, a failure or crash at every store operation.",
"No stable test covers prekey consumption and none injects store failures or crashes.",
["axolotl/session.go","store.go"],
[("prekey removal relative to session storage","axolotl/session.go"),("last-resort id is exempt","store.go, axolotl/session.go")])

p("C10","Peers cannot make session state grow without bound",
"Whatever messages arrive, a session keeps a bounded number of receiver chains, archived states and skipped message keys, and a message whose counter runs too far ahead is refused instead of deriving keys without limit.",
["inputs","histories"],"Arbitrary counters (full 32-bit range), arbitrary numbers of ratchet steps, re-establishments and skipped messages.",
"Limits matter at sizes and counter values tests do not reach.",
["axolotl/session.go"],
[("limits on chains, archived states, skipped keys","axolotl/session.go")])

p("C11","Sessions and prekeys survive being saved and reloaded",
"Serializing and reloading a session, a prekey or a signed prekey gives back an equivalent object: the reloaded session continues the conversation exactly as the original would have, and a reloaded prekey has the same id, key pair, signature and timestamp.",
["inputs","histories"],"All key and counter values, sessions in every stage of a bounded conversation (fresh, pending prekey, several chains, archived states).",
"The prekey test reloads one fixed record and is not in the stable set; sessions are not tested.",
["axolotl/session.go","axolotl/prekeys.go"],
[("record serialization","axolotl/session.go, axolotl/prekeys.go")])

p("C12","Malformed protocol messages give errors, never crashes",
"Parsing or decrypting any byte string as a session message or prekey message returns an error or a message, and never crashes the client, whatever lengths, versions or missing fields the input has.",
["inputs"],"Every byte string up to the stated length, and every wire message with arbitrary presence and length of each field.",
"Crash-freedom over all inputs cannot be sampled; no stable test feeds malformed input.",
["axolotl/messages.go","axolotl/session.go","axolotl/keys.go"],
[("length and version checks when loading messages","axolotl/messages.go")])

p("C13","Symmetric message encryption round-trips and rejects bad input cleanly",
"Decrypting what was encrypted under the same keys returns exactly the original bytes for every length; decrypting any other byte string returns an error or some bytes, and never crashes, whatever its length or padding.",
["inputs"],"All plaintexts and ciphertexts up to the stated length, all keys.",
"Block and padding boundary cases are input-dependent; stable tests contain none.",
["axolotl/crypto.go","crypto.go"],
[("CBC with block padding","axolotl/crypto.go, crypto.go")])

p("C14","Stored data is authentic: wrong or damaged files are never used",
"Every value written to the encrypted store reads back identically, and a stored file that was truncated, extended or altered in any byte is reported as an error rather than returned as data, silently replaced by a fresh value, or crashing the client.",
["inputs","fault_sequences"],"All stored contents up to the bound and every alteration, truncation or extension of the stored file.",
"Damage can hit any byte or length; no test reads a damaged file.",
["store.go","crypto.go"],
[("encrypt-then-MAC of each file","store.go")])

p("C15","A crash while saving never loses the previously saved value",
"If the client is interrupted at any point while it saves a key, prekey, session or identity, then after restart the store yields either the complete previous value or the complete new value.",
["crash_points"],"A crash after any prefix of the file system operations of a save, including part-written file contents.",
"Tests never interrupt a save.",
["store.go"],
[("how files are written","store.go")])

p("C16","Stored sessions are kept apart by correspondent and device",
"Data stored for one correspondent and device is never read, overwritten, listed or deleted by an operation on a different correspondent or device, nor a prekey by one on another id; deleting all sessions of a correspondent removes all and only that correspondent's sessions, and identifiers received from outside never reach files outside the store.",
["inputs","histories"],"All pairs of correspondent identifiers and device numbers, all sequences of store operations up to the bound.",
"Aliasing depends on unusual identifier values; no test exercises the file store.",
["store.go"],
[("file naming by correspondent and device","store.go")])

p("C17","Generated prekeys have distinct, valid ids and match what is published",
"A generated batch of prekeys has pairwise distinct ids that are valid for use and never collide with the last-resort id; what is uploaded for each id is the public half of the key stored under that id, and the signed prekey's signature covers exactly its serialized public key.",
["inputs"],"Every random starting id and all key values.",
"A random start id near the edge of the id space occurs about once in 10^5 runs.",
["prekeys.go","axolotl/prekeys.go"],
[("id generation and upload construction","prekeys.go")])

p("C18","Attachments are verified before they are decrypted",
"An attachment fetched for a message is handed to the application only if its authentication code under the key in the message is correct and it matches the digest in the message if the message gives one, and then its content is exactly what the sender encrypted; any altered, truncated or malformed attachment, or malformed key, yields an error and never a crash or partial content.",
["inputs"],"All attachment bodies up to the bound, all alterations and truncations, key fields of any length.",
"No test downloads or decrypts an attachment.",
["attachments.go","crypto.go"],
[("MAC check before decryption","attachments.go, crypto.go")])

p("C19","Encrypted envelopes from the server are authenticated or refused",
"An envelope received with server-side encryption is decrypted only when its authentication code is right and its version is supported; every other byte string results in an error or in being treated as unencrypted data, and never crashes the client.",
["inputs"],"Every received byte string up to the bound and every signaling key.",
"Crash-freedom and authentication hold over all inputs; no test covers this path.",
["textsecure.go","crypto.go"],
[("signaling MAC and version check","textsecure.go")])

p("C20","Incoming messages with missing or odd fields never crash the client",
"Any envelope, and any decrypted message from a peer, whatever combination of optional fields is present or absent, is either handled or refused with an error; it never crashes the client.",
["inputs"],"Every combination of presence and values of the optional fields of envelopes, data, sync, call, typing and receipt messages within the bound.",
"The number of field combinations is exponential and tests contain none.",
["textsecure.go","handler.go","sync.go","groups.go","groupsv2/groupsv2.go"],
[("nil-safe access of optional message fields","handler.go, sync.go, textsecure.go")])

p("C21","Peers act only in their own name",
"A message received from one correspondent never causes actions reserved to another: only messages from the user's own account are processed as synchronisation from the user's other devices, and an end-of-session request deletes sessions of its sender only.",
["inputs"],"All senders, all message contents within the bound.",
"Authorisation must hold for every sender and message; no test covers it.",
["textsecure.go","handler.go","sync.go"],
[("sender check before acting on sync messages","handler.go, sync.go"),("end-session handling","textsecure.go")])

p("C22","Outgoing messages reach exactly the recipient's devices",
"Sending a message produces exactly one ciphertext per known device of the recipient, each encrypted in that device's session and labelled with that device's number and registration id; when the server reports missing, extra or stale devices, exactly those sessions are added or removed before the message is sent again. A message is reported as sent exactly when the server took it; malformed prekeys or answers, and a server that never stops reporting changes, make sending fail with an error, never crash or go on for ever.",
["inputs","histories"],"All sets of devices up to the bound, all server responses (success, mismatched, stale, other errors) in every order up to the bound.",
"Depends on sequences of server answers that tests do not produce.",
["server.go","store.go"],
[("per-device encryption","server.go"),("mismatched and stale device handling","server.go")])

p("C23","Message padding is reversible and hides the length",
"Padding a message and stripping the padding again returns exactly the original content for every content and length, including content that ends in bytes that look like padding; padded lengths depend on the length only in fixed steps.",
["inputs"],"All message contents up to the stated length.",
"Content that ends in marker-like bytes is easily missed by examples.",
["server.go"],
[("padding with a terminator byte","server.go")])

p("C24","Safety numbers are the same on both sides and compared correctly",
"Both parties compute the same safety number from the same pair of identities, whichever is local; comparing or scanning another fingerprint reports a match exactly when it was made from the same identities with the roles swapped, and never crashes.",
["inputs"],"All identifiers and identity keys within the bound, all orderings of the two halves including equal ones.",
"Tests use one fixed pair of identities.",
["fingerprint/fingerprint.go","fingerprint/fingerprint_numbers.go","fingerprint/qr_fingerprint.go"],
[("ordering of the two halves","fingerprint/fingerprint_numbers.go")])

p("C25","Profile secrets are random and profile names round-trip",
"Profile keys and the nonces used to encrypt profile data come from a cryptographically secure source; an encrypted profile name decrypts to exactly the name that was set for every allowed name, and any malformed or altered encrypted name or avatar gives an error, never a crash. Profile fields that cannot be decrypted are never shown or kept as a contact's name or text, and a profile is kept only for the account it was asked for. A profile key credential is accepted only if the server issued it for the account and its profile key, and what is accepted proves both to the server.",
["inputs"],"All names up to the bound, all ciphertexts up to the bound, all random outcomes.",
"Predictable randomness is invisible to input-output tests.",
["profiles/profile.go","profiles/avatars.go","crypto/aesgcm.go"],
[("AES-GCM with padding of names","profiles/profile.go")])

p("C26","Device provisioning messages are readable only by the new device and intact",
"A provisioning message encrypted for a new device's public key is decoded by the holder of the matching private key to exactly the identity and account data that was put in, is authenticated over its version and ciphertext, and uses keys derived from a fresh key agreement.",
["inputs"],"All account data and keys within the bound.",
"No test runs the provisioning cipher.",
["crypto.go","link.go"],
[("key agreement, encryption and MAC of the provisioning message","crypto.go")])

p("C27","Contact discovery requests encode exactly the user's contacts",
"A contact discovery request contains exactly the submitted phone numbers, each in its fixed-size encoding and in order, bound to the fresh random commitment it declares, and each enclave's envelope decrypts only with that enclave's negotiated key; what is no phone number is refused, and malformed server answers give errors, never crashes; each number is then registered under the account the answer gives for it.",
["inputs"],"All lists of phone numbers up to the bound, all key and server answer lengths within the bound.",
"Tests cover single fixed values.",
["contactDiscoveryCrypto/contactDiscoveryCrypto.go","contactsDiscovery/remoteAttestationUtil.go"],
[("query construction and commitment","contactDiscoveryCrypto/contactDiscoveryCrypto.go")])

p("C28","Verifying a signature is a pure yes/no question",
"Verifying a signature gives the same answer however often it is asked and changes none of its inputs; a signature made with a private key verifies under the matching public key for every key and message, including keys whose Edwards sign bit is set.",
["inputs"],"All signatures, messages and keys within the bound, repeated verification.",
"Tests verify each random signature once and do not look at the inputs afterwards.",
["curve25519sign/curve25519sign.go"],
[("sign bit transport in the signature","curve25519sign/curve25519sign.go")])

p("C29","Group changes need the permission the group's rules demand",
"A change to a group is made exactly if whoever makes it has the role or membership the group's access rules require for that kind of change (attributes, rules, roles, adding and removing members, inviting and withdrawing invitations, joining or asking to join by link with the password, accepting an invitation or changing a profile key with a proof of one's own). A change made alters exactly what it names: no duplicate members appear and nobody gains a role the change does not grant; a refused or malformed one alters nothing and crashes nothing.",
["inputs","histories"],"All group states within the bound (roles, access settings, membership lists), all kinds of change and all acting members.",
"The product of roles, access settings and change kinds is never enumerated by tests; there are none for groups.",
["groupsv2/groupAuth.go","groupsv2/groupChange.go"],
[("permission predicates","groupsv2/groupAuth.go"),("change applicators","groupsv2/groupChange.go")])

p("C30","No invalid group state is accepted",
"A group state is accepted as the result of a change only if all structural rules hold: no person appears twice or in two membership lists, there is a title, title, description and member lists respect their limits, every member and everybody invited has a valid role, access settings have permitted values (nobody outside may change a group), and a group that can be joined by link has a password. A state that keeps all rules is accepted, and none crashes.",
["inputs"],"All group states within the bound.",
"The validator has no tests; its rules must hold for every state.",
["groupsv2/groupValidator.go"],
[("final group state validation","groupsv2/groupValidator.go")])

p("C31","Group messages reach exactly the members, and member lists are kept",
"Making, changing, leaving or writing to a group sends exactly one message to every other member and to nobody else; all copies of a group message say the same at the same time and, for groups kept on the server, name the group and its revision. The member list holds exactly the members named and the user, each once; an update or a member quitting changes exactly that; after the user left a group it is unknown, also after a restart, and nothing can be sent to it. Other groups are untouched, unknown groups and unreachable members are reported, and whoever is not a member cannot send to a group.",
["inputs","histories"],"All member lists, groups and sequences of operations within the bound.",
"No tests cover groups.",
["groups.go"],
[("member lists and sending to groups","groups.go")])

p("C32","Sender certificates are honoured only while valid",
"A sender certificate that is empty, malformed, lacks an expiry or has expired is refused with an error, without crashing or ending the client process; a valid one is honoured, and the client's own certificate is used only while it would be honoured.",
["inputs"],"All certificate byte strings within the bound, all presence combinations, all expiry values and clock values.",
"No test covers certificates; expiry depends on time.",
["unidentifiedAccess/unidentifiedAccess.go","sealedSessions"],
[("certificate check","unidentifiedAccess/unidentifiedAccess.go")])

p("C33","Requests go to the server with the right identity, and statuses are read right",
"Every request to the service carries the configured user agent, credentials, method, path and body it was asked to send, over a connection configured with the given root certificate and proxy; responses are treated as errors exactly when their status is outside 200-299.",
["inputs","configurations"],"All configurations, paths, bodies and status codes within the bound.",
"No test covers the transport, and configuration combinations are not enumerated.",
["transport/transport.go"],
[("HTTP transport set-up and request construction","transport/transport.go")])

p("C34","Every backend request gets its own answer",
"Each request sent to the companion backend process is answered to the caller that sent it whenever the backend answers, however the answer interleaves with the caller; no answer is lost, delivered to another request, or able to block or crash the connection.",
["schedules"],"All interleavings of sender, reader and backend up to the stated number of requests.",
"A lost answer needs a particular interleaving that tests do not control.",
["crayfish/backend.go"],
[("response channel set-up relative to sending","crayfish/backend.go")])

p("C35","Identifier and text encodings round-trip and reject junk",
"Encoding and decoding of base64 without padding, hexadecimal ids and UUIDs, phone-number digits, public keys, signatures, lengths and prekey file names are inverse to each other for every value, and malformed text gives an error or empty result, never a crash or a different valid value.",
["inputs"],"All values of each kind within the bound.",
"Encodings have to hold on every value including boundary lengths.",
["helpers/base64.go","helpers/helpers.go","groupsv2/helpers.go","sync.go","store.go","server.go"],
[("encoding helpers","helpers")])

p("C36","Contact records are updated without losing or mixing data",
"Updating one field of a stored contact (profile key, name, blocked or access state) changes only that contact and that field, contacts are found under the identifiers they were stored with, and reloading the contact list gives back the same contacts. Copies of messages sent by the user's own devices do not change a contact's profile key, and a contacts file that cannot be read is not overwritten.",
["inputs","histories"],"All contacts and update sequences within the bound.",
"No tests cover contacts.",
["contacts/contacts.go"],
[("contact map keyed by identifier","contacts/contacts.go")])

p("C37","Every delivered message is processed once and acknowledged once, afterwards",
"Each message request the server sends over the websocket is handed on once, in the order of arrival, and acknowledged exactly once, with its own id, only after it was processed. Frames that are no requests are never acknowledged, unreadable or foreign ones do not keep later messages from being processed, keep-alives go on, the end of the connection is reported, and connecting again starts clean.",
["inputs","histories"],"All sequences of frames within the bound, any request ids, and the end of the connection at any place.",
"No test covers the websocket; lost or premature acknowledgements lose messages only in particular sequences.",
["websocket.go","handler.go"],
[("acknowledgement of websocket requests","websocket.go")])

p("C38","Group data from outside is authentic and understood as meant",
"A group change carried by a message is handed to the application only if the server's signature over it is right, and with no other message. The state and the changes of a group are shown exactly as they were encrypted under its master key: members and titles that cannot be decrypted are refused or left out, and a group that cannot be decrypted leaves the state known before as it is. Every stored group is found under its own id, and credentials for group requests are those of the day, fetched when they are missing. Accepting an invitation is told to the server as a change made in the user's own name, and the user is shown as a member only when the server has accepted it.",
["inputs","histories"],"All group states, changes, signatures and credential lists within the bound, sequences of lookups and messages.",
"No test covers groups, and forged or damaged group data has to be refused in every form.",
["groupsv2/groupsv2.go","groupsv2/decrypt.go","groupsv2/groupActions.go","groupsv2/credentials.go"],
[("signature check on group changes","groupsv2/groupsv2.go"),("decryption of members and titles","groupsv2/decrypt.go"),("credentials by day","groupsv2/credentials.go")])

p("C39","Every secret is unpredictable in all its bits",
"Everything the client invents that has to be secret or unique – identity, prekey, base and ratchet keys, account password, signaling key and registration id, storage salt, message and attachment IVs and keys, group ids, profile keys and nonces, stand-in access keys, contact-discovery keys and nonces – takes each of its bits from the secure random source: somebody who knows everything else, including the clock, predictable generators and all earlier values, can rule out no value of any bit.",
["inputs"],"All outcomes of the random source; all bits of each secret.",
"Predictable or partly constant secrets look random to tests that sample them.",
["axolotl/keys.go","axolotl/crypto.go","crypto.go","textsecure.go","store.go","attachments.go","prekeys.go","profiles/profile.go","unidentifiedAccess/unidentifiedAccess.go","contactDiscoveryCrypto/contactDiscoveryCrypto.go"],
[("random bytes of the main package","crypto.go"),("random bytes of the ratchet","axolotl/crypto.go"),("profile keys","profiles/profile.go")])

p("C40","An interrupted save of contacts, groups or settings keeps what was saved before",
"When the client stops at any moment of saving its contacts, a group or its settings, the next start finds the complete earlier or the complete new contents: no contact, group or setting saved before is lost, mixed or half written, other groups are untouched, nothing unfinished is taken for a group, and saving works again.",
["crash points","inputs"],"Every file operation of every save as crash point; all contents within the bound.",
"Tests do not stop the process between file operations.",
["contacts/contacts.go","groups.go","groupsv2/groupsv2.go","config.go","utils/utils.go"],
[("atomic saving","utils/utils.go"),("groups read at start","groups.go")])

p("C41","A message reaches the application as its author wrote it",
"What is given to the sending functions – text, timer, time, attachments, end of session – arrives at the recipient's application once and unchanged, and copies for the user's other devices say the same and name the recipient. Received messages are handed to the application once each, in order, with everything they say (text, time, timer, quote, sticker, contacts, reaction, profile key, sender) and with nothing of other messages; receipts, read notices and typing are reported for exactly the messages and senders they name; the end of a session deletes the sessions with that correspondent and no others.",
["inputs","histories"],"All texts, times, timers and parts of messages within the bound, every kind of message.",
"Tests do not send or receive messages, and each part has to survive in every combination.",
["server.go","sender.go","handler.go","sync.go","message.go","textsecure.go"],
[("message construction","server.go"),("hand-over to the application","handler.go"),("copies of sent messages","sync.go")])

p("C42","Linked devices that ask get all contacts and groups, and only they do",
"When one of the user's own devices asks for contacts or groups, one answer is sent to the user's own devices whose attachment holds every registered contact or every group exactly once, in a form that can be taken apart again, each with its own number, identifier, name, block and timer, or name and members. Nobody else is answered, nothing is announced that was not uploaded, and failures are reported.",
["inputs"],"All contact and group lists within the bound, any requester.",
"No test covers synchronisation between devices.",
["sync.go","server.go"],
[("contacts and groups for linked devices","sync.go")])

p("C43","Registration is complete, or it is done again",
"When the application is told that registration is done, everything the server publishes for the account – identity key, one-time, last-resort and signed prekeys, password, signaling key – is what the store holds, and the settings name the account, number and name. Any step that fails, the storing of credentials included, is reported, the application is not told that it is registered, and the next start registers again. A stop at any moment leaves a state from which the next start either registers again or has everything in place. Messages are then decrypted for the registered account.",
["inputs","histories","crash points"],"Every failing step of registration, every answer of the service within the bound, every file operation as crash point.",
"No test registers; half finished registrations show only at particular failures and stops.",
["textsecure.go","prekeys.go","server.go","store.go","crayfish/register.go"],
[("setup and registration","textsecure.go"),("publishing of prekeys","prekeys.go"),("registration requests","server.go")])

p("C44","Every start uses what belongs to the account",
"All settings are read back as they were saved, whichever of them was changed. Restarts leave the identity key, registration id, password, signaling key, account id, number, name and profile key as they were, and the service is addressed with them. The stored profile key credential and sender certificate belong to the stored profile key and registration, also when a new registration over earlier settings was interrupted, and a profile key that cannot be saved is not used. What a start fetches or asks for (a certificate when there is none or it has expired, the name) is saved and used from then on. When stored parts cannot be read, or the storage password is wrong, the start is refused: nothing is replaced, and no new account is registered over the old one.",
["inputs","histories"],"Sequences of starts with every stored part damaged or missing within the bound, any account data and wrong passwords.",
"Tests do not start the client; a start that silently replaces keys looks like one that works.",
["textsecure.go","store.go","config.go","registration/registration.go","profile.go"],
[("start of the client","textsecure.go"),("storage and registration data","store.go"),("settings","config.go")])

p("C45","Account attributes are right, and linked devices stay manageable",
"Account attributes sent to the service carry the account's registration id, signaling key and name, the capabilities asked for, and the access key that contacts derive from the profile key; the settings afterwards say what the service took and nothing it refused, and success means they are saved. The list of linked devices is the service's, exactly the device named is unlinked, every linking attempt carries a code of the service that has not failed before, verification codes are asked for and confirmed as entered, and refusals and lost connections are reported and told apart.",
["inputs","histories"],"All attributes, answers and statuses within the bound, sequences of linking attempts.",
"No test covers account requests; a wrong access key or a stale code only shows at other clients or at the next attempt.",
["server.go","link.go","textsecure.go","unidentifiedAccess/unidentifiedAccess.go"],
[("account attributes","server.go"),("linking of devices","link.go")])

p("C46","Using a session from several places at once loses nothing",
"When several goroutines send, receive and start sessions with the same device at the same time, in any interleaving of their steps: every message that was encrypted without an error can be read by the other side, every message that arrives is read, exactly once even when it arrives twice at once, no session that either side still uses is dropped, nothing deadlocks, and the session goes on afterwards.",
["schedules"],"All interleavings of two concurrent operations on one peer's session (sending, receiving, receiving the same message twice, starting a session) up to the stated number of preemptions, in new, acknowledged and simultaneous sessions.",
"Tests run one operation after the other; a lost update of the stored session needs a switch between reading and writing it back.",
["axolotl/session.go","server.go","store.go"],
[("operations on stored sessions","axolotl/session.go")])
p("C47","A kept avatar is whole and the account's own",
"The avatar found for an account is, byte for byte, the last one saved for that account, also after a restart; when the client stops in the middle of saving one, the complete earlier or the complete new avatar is found afterwards and the avatars of others are as before; and whatever the identifier an avatar is saved, fetched with a profile or asked for under, no other file is written or read.",
["inputs","crash points","histories"],"Every operation of the file system during a save as the point where the client stops; sequences of saves for accounts with look-alike identifiers; identifiers with path elements, given directly or in a profile from the server; all picture contents of the stated lengths.",
"No test saves an avatar; a stop in the middle of a save and identifiers that are paths do not occur in ordinary use.",
["profiles/avatars.go","profiles/profile.go"],
[("saving and finding avatars","profiles/avatars.go")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
