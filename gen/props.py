# Source of properties.jsonl and MANIFEST.json (run: python3 gen/props.py).
# P(id, title, statement, over, quantifier text, why tests cannot, files, mechanism[(name, where)], observe_at, technique, level_note, na=None)
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, st, over, q, why, files, mech, obs, tech=None, note=None, na=None, state=None):
    PROPS.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, obs=obs, tech=tech, note=note, na=na, state=state))


ESP = "static analysis: disjunctive (ESP-style) interprocedural dataflow over SSA"

P("C01", "Session messages are authenticated before any plaintext is produced",
  "A session message is decrypted, and plaintext handed out, only after a message authentication code keyed for that very message has been compared successfully with the received tag. The code covers the sender's identity key, the receiver's identity key and every received byte before the tag, in that order, and at least eight tag bytes; a sent message carries exactly that code.",
  ["inputs", "histories"], "every received byte string, every session history, both ordinary and session-establishing messages",
  "The tests never decrypt a session message; forged or modified messages are an unbounded input set.",
  ["axolotl/session.go", "axolotl/messages.go", "axolotl/crypto.go"],
  [("tag check in the session decryption", "axolotl/session.go: sessionState.decrypt"), ("tag computation", "axolotl/messages.go: getMac, verifyMAC, newWhisperMessage")],
  ["SessionCipher.SessionDecryptWhisperMessage", "SessionCipher.SessionDecryptPreKeyWhisperMessage", "SessionCipher.SessionEncryptMessage"],
  ESP + " with symbolic value terms and linear length facts",
  "Every path of the three entry points is covered (loops by fixpoint); trusts crypto/hmac and the term abstraction (no aliasing of distinct fields).")

P("C02", "Attachments, avatars, stored files and envelopes are verified before decryption",
  "Every encrypted blob the library reads with a shared key (attachment, profile or contact avatar, file of the local store, envelope from the server) is decrypted only after its trailing authentication code has been compared successfully. The compared code is computed over exactly the bytes that are then decrypted, with a key from a different part of the key material than the decryption key, using a constant-time comparison.",
  ["inputs"], "every blob content and length, including truncated and modified blobs",
  "The only related tests check one MAC vector and never run the readers.",
  ["attachments.go", "store.go", "crypto.go", "textsecure.go"],
  [("attachment reader", "attachments.go: handleSingleAttachment, handleProfileAvatar"), ("store reader", "store.go: store.decrypt"), ("envelope reader", "textsecure.go: decryptReceivedMessage")],
  ["GetProfileAvatar", "attachment contents of a delivered message", "reads from the local store"],
  ESP + " (every block decryption outside the session layer must be dominated by a true tag comparison over the same bytes)",
  "Covers every call of the CBC decryptor reachable in the package; trusts crypto/hmac.")

P("C03", "A session is never built from an unverified signed pre-key",
  "When a session with a contact is started from a pre-key bundle fetched from the server, no session is initialised or stored and no identity is saved unless the signed pre-key's signature has been verified against the bundle's identity key. A bundle whose signature does not verify is rejected with an error.",
  ["inputs", "histories"], "every bundle a server can return, with and without one-time pre-keys",
  "No test builds a session; the malicious bundle is adversarial input.",
  ["axolotl/session.go", "curve25519sign/curve25519sign.go"],
  [("signature check", "axolotl/session.go: SessionBuilder.BuildSenderSession")],
  ["SessionBuilder.BuildSenderSession"],
  ESP, "Holds on every path through BuildSenderSession and its helpers; trusts curve25519sign.Verify.")

P("C04", "A changed identity key is never accepted silently",
  "No session is established, stored or keyed, and no identity is recorded, for a contact whose identity key has not first been found trusted; an untrusted key ends in an error that reaches the caller. A key counts as trusted only if it equals the recorded one, no key has been recorded yet, or the user configured blanket trust; a record that cannot be read is not treated as trust.",
  ["inputs", "histories", "fault_sequences"], "every incoming first message, every fetched bundle, every content or read failure of the identity record",
  "No test touches the trust store or session building.",
  ["axolotl/session.go", "store.go"],
  [("trust check before building", "axolotl/session.go: BuildReceiverSession, BuildSenderSession"), ("trust decision", "store.go: store.IsTrustedIdentity")],
  ["SessionBuilder.BuildReceiverSession", "SessionBuilder.BuildSenderSession", "store.IsTrustedIdentity"],
  ESP, "All paths of both builders and of the trust decision, including failures of every call on them.")

P("C05", "A sending key is never used for two messages",
  "Every ciphertext returned for sending was made with message keys of the current sending chain position, and the advanced position has been stored successfully before the ciphertext is returned. If advancing, serialising or storing fails, an error is returned and no ciphertext.",
  ["histories", "fault_sequences", "crash_points"], "every session state and every failure of an intermediate step",
  "No test encrypts with a session; reuse only shows after a failure or restart.",
  ["axolotl/session.go"], [("advance then store", "axolotl/session.go: SessionCipher.SessionEncryptMessage")],
  ["SessionCipher.SessionEncryptMessage"], ESP, "All exits without error of the encrypt entry point.")

P("C06", "A rejected message leaves the session as it was",
  "When a stored session state fails to authenticate a received message, nothing it changed while trying becomes part of the stored session record, whether the call then fails or another stored state accepts the message. A state that accepted a message becomes the current one and is not also kept among the archived ones.",
  ["inputs", "histories"], "every forged, corrupted or out-of-date message, tried against every stored session state",
  "Needs adversarial messages against live sessions; the tests have none.",
  ["axolotl/session.go"], [("try current and previous states", "axolotl/session.go: SessionCipher.decrypt")],
  ["SessionCipher.SessionDecryptWhisperMessage", "SessionStore.StoreSession"], ESP + " with an ownership rule for session state objects",
  "Every store of a session record reachable from the two decrypt entry points.")

P("C07", "Plaintext is released only after the advanced session is stored",
  "A successfully decrypted session message is returned to the caller only after the session state that consumed its keys has been stored without error; if storing fails the caller gets the error and no plaintext.",
  ["histories", "fault_sequences", "crash_points"], "every message kind, every failure of the session store",
  "Store failures and crashes between decryption and storing are not in any test.",
  ["axolotl/session.go"], [("store before return", "axolotl/session.go: SessionDecryptWhisperMessage, SessionDecryptPreKeyWhisperMessage")],
  ["SessionCipher.SessionDecryptWhisperMessage", "SessionCipher.SessionDecryptPreKeyWhisperMessage"], ESP, "All error-free exits of the two decrypt entry points.")

P("C08", "Every session update happens atomically under the session lock",
  "Whenever the library loads a session in order to change and store it, the process-wide session lock is held from before the load until after the store, and is not taken twice. The lock is released on every way out, including errors.",
  ["schedules", "fault_sequences"], "every interleaving of sending, receiving and session building, every error path",
  "The tests are single threaded and touch no session.",
  ["axolotl/session.go"], [("session lock", "axolotl/session.go: SessionCipher.SessionEncryptMessage, SessionDecryptWhisperMessage, SessionDecryptPreKeyWhisperMessage, SessionBuilder.BuildSenderSession")],
  ["SessionStore.LoadSession", "SessionStore.StoreSession", "SessionStore.Lock"], ESP + " (lock-state typestate)", "Every exported session operation, every path; assumes the store's Lock/Unlock are a mutex.")

P("C09", "A one-time pre-key is deleted exactly when its session is safely stored",
  "A one-time pre-key is removed only after the message that used it was decrypted and the resulting session stored without error, it is then always removed, and the last-resort pre-key is never removed. A message naming no one-time pre-key removes none.",
  ["histories", "fault_sequences", "crash_points"], "every session-establishing message and every failure point",
  "No test processes a session-establishing message.",
  ["axolotl/session.go"], [("removal", "axolotl/session.go: SessionDecryptPreKeyWhisperMessage")],
  ["PreKeyStore.RemovePreKey", "SessionStore.StoreSession"], ESP, "All paths of the pre-key decrypt entry point.")

P("C10", "Skipped, repeated and far-future messages are bounded",
  "A received counter more than 2000 ahead of its chain is refused before any key is derived for it; a counter behind its chain is accepted only with a stored message key, which is then deleted, and otherwise reported as a duplicate. At most five receiving chains per session and forty archived session states per contact are kept.",
  ["inputs", "histories"], "every 32-bit counter value and every sequence of received messages",
  "Counter values and histories are unbounded; no test has a session.",
  ["axolotl/session.go"], [("counter window", "axolotl/session.go: getOrCreateMessageKeys"), ("limits", "axolotl/session.go: addReceiverChain, archiveCurrentState, setMessageKeys")],
  ["SessionCipher.SessionDecryptWhisperMessage"], ESP + " with linear interval facts", "All paths of the decrypt entry points.")

P("C11", "Messages of an unsupported protocol version are refused",
  "Serialized session messages are parsed only if their version is exactly the supported one; others give an error before anything else of the message is read. A message is decrypted only by a session state of the same version.",
  ["inputs"], "every leading byte and every session version",
  "No test parses a session message.",
  ["axolotl/messages.go", "axolotl/session.go"], [("version gate", "axolotl/messages.go: LoadWhisperMessage, LoadPreKeyWhisperMessage"), ("version match", "axolotl/session.go: sessionState.decrypt, BuildReceiverSession")],
  ["LoadWhisperMessage", "LoadPreKeyWhisperMessage", "SessionCipher.SessionDecryptWhisperMessage"], ESP, "All paths of the parsers and decrypt entry points.")

P("C12", "Malformed data from the network never crashes the client",
  "Bytes received from another user, from the messaging service, from a CDN or from a QR code cannot make the library panic or terminate the process: truncated, empty, oversized or field-missing input ends in a returned error or is dropped. In particular no out-of-range index or slice, no use of an absent message field, no use of a result whose call failed and no call of the cryptographic or group (zkgroup) libraries with input shorter than they require is reachable from such input.",
  ["inputs", "fault_sequences"], "every byte string in every place where remote data enters",
  "Crashing inputs are a needle in an unbounded input space; the tests feed none.",
  ["textsecure.go", "crypto.go", "attachments.go", "axolotl/messages.go", "axolotl/crypto.go", "server.go", "receive.go", "groupsv2", "profiles"],
  [("length and presence checks", "throughout the receive path")],
  ["StartListening", "LoadWhisperMessage", "LoadPreKeyWhisperMessage", "attachment and avatar download", "groupsv2.HandleGroupsV2"], "static analysis: bounds, nil-presence and error-before-use obligations discharged by the path-sensitive dataflow",
  "Each index, slice, optional-field dereference, library call with a length precondition and failed-result use is an obligation; library code is trusted.")

P("C13", "Key material is stored encrypted and private to the user",
  "With a store password set, everything the key store writes to its directories (pre-keys, signed pre-keys, identities, sessions and the registration's credentials) is written only as an encryption under one key followed by an authentication tag under another key over all of it; the two keys are disjoint parts, of 16 bytes or more, of one derivation (1000 iterations or more) from the password and a salt that is kept on disk. The store goes without encryption only if the password is empty. Every file and directory the library creates (profile pictures excepted) is created without any access for the group or others.",
  ["inputs", "configurations"], "every store entry and every configuration with a password",
  "No test writes a store.",
  ["store.go", "config.go", "groups.go", "contacts", "attachments.go"], [("write path", "store.go: store.writeFile, store.encrypt, newStore")],
  ["files below the storage directory"], ESP, "Every file write reachable from the store's methods; every creation of a file or directory.")

P("C14", "All secrets come from the operating system's secure random source",
  "Every random key, key pair, salt, nonce, IV, registration id and password the library generates comes, in full length, from the cryptographic random source, never from a seeded generator, a clock or a constant. A failure of that source never leads to the value being used.",
  ["inputs", "configurations", "fault_sequences"], "every generated value, every failure of the random source",
  "Randomness quality and source failures are invisible to value-based tests.",
  ["axolotl/utils.go", "axolotl/curve.go", "crypto.go", "profiles/profile.go", "unidentifiedAccess"], [("random source", "axolotl/utils.go: RandBytes; utils.go: randBytes")],
  ["generated keys, IVs and nonces"], "static analysis: whole-program source query and error-before-use dataflow", "Every use of a random generator in the module.")

P("C15", "Every encryption uses a fresh initialisation vector",
  "Each call that encrypts data with a block cipher in the library uses an IV or nonce filled from the secure random source during that same call, and that IV is transmitted with the ciphertext; the only exceptions derive the key for a single use (session message keys, access-key derivation).",
  ["inputs", "histories"], "every encryption on every path",
  "IV reuse is invisible to single-call tests.",
  ["crypto.go", "contactDiscoveryCrypto", "axolotl/crypto.go"], [("IV generation", "crypto.go: aesEncrypt; contactDiscoveryCrypto; profile name encryption")],
  ["ciphertexts produced by the library"], ESP, "Every cipher construction in the module.")

P("C16", "Connections to the service authenticate the server",
  "Every TLS connection the library opens verifies the server's certificate chain and host name: no TLS configuration turns verification off and no dial function of the library's own takes the place of the TLS dial. The websocket to the service and the HTTP clients of the service trust only the root certificates loaded by the library (the built-in ones or the configured file), which are loaded before the first client is built. Built-in addresses use https or wss, and for an https server address the websocket uses wss. (The connection to the helper process on the local host may be plain.)",
  ["configurations", "inputs"], "every HTTP client, websocket and dialer the library constructs",
  "Tests have no network and would pass with verification off.",
  ["transport/transport.go", "attachments.go", "websocket.go", "crayfish/backend.go", "rootCa/rootca.go"], [("TLS configuration", "transport.newHTTPTransporter, getAttachment, Conn.connect"), ("trusted roots", "rootCa.SetupCA")],
  ["outgoing TLS connections"], "static analysis: query over every TLS configuration and dial, path-sensitive dataflow for the trusted roots", "Every construction of a TLS configuration, dialer and HTTP client in the module.")

P("C17", "A failed server request is never reported as success",
  "When the server answers a request with an error status (anything outside 200..299), or the answer cannot be read or decoded, the operation that made the request reports an error to its caller instead of continuing with empty or partial data, and the operations built on it report it in turn. (Not meant: profile pictures, the publication of the own profile at start-up, the refresh of a group from the server, and the copy of a sent message to the user's own devices, which a caller may go on without.)",
  ["inputs", "fault_sequences"], "every HTTP status, every undecodable body, every request kind",
  "The tests make no request.",
  ["server.go", "transport", "profiles", "groupsv2", "attachments.go"], [("status checks", "transport.Response.IsError users")],
  ["error results of the exported request functions"], ESP, "Every function that issues a request.")

P("C18", "A failure to save protocol state is never swallowed",
  "If writing a key, session, identity, registration credential, configuration, contact list or group to local storage fails, the operation that needed it reports an error to its caller instead of reporting success, at every level up to the exported operation. (Not meant: profile pictures, deletions, the refresh of a group from the server, and the copy of a sent message to the user's own devices, which a caller may go on without.)",
  ["fault_sequences", "crash_points"], "every failing write at every point",
  "The tests inject no storage failure.",
  ["store.go", "server.go", "textsecure.go", "groups.go", "groupsv2"], [("error propagation", "callers of the store's writers")],
  ["error results of the exported operations"], ESP, "Every call of a storage writer in the module.")

P("C19", "Delivered messages are acknowledged only after they were handled",
  "A request pushed by the server over the receiving connection is answered with status 200 and its own id, and only after the processing of its message has returned (or failed, or the request carried no message); the processing leaves no notification of the application to a goroutine. Every pushed request that can be decoded is answered before the next one is read, whatever becomes of its message, and no such request ends the receiving loop. The answers reach the connection, and all writes to a connection come from the single goroutine started for it.",
  ["schedules", "histories", "inputs"], "every sequence of pushed messages and every processing outcome",
  "The loop needs a live server; the tests have none.",
  ["websocket.go", "textsecure.go", "handler.go", "crayfish"], [("receiving loop", "websocket.go: StartListening"), ("answers", "websocket.go: Conn.sendAck, Conn.writeWorker"), ("the helper's connection", "crayfish/backend.go: StartWebsocket")],
  ["acknowledgements on the websocket"], ESP, "All paths of one iteration of the loop, for every iteration (state of earlier ones generalised); the processing of an envelope is one step. A goroutine that the application's own callbacks start is outside.")

P("C20", "Every received message reaches the handler for its kind",
  "An envelope is decrypted by the routine for its type, and one of an unknown type is reported as an error. A content that was decrypted is parsed or an error reported; a data, call, receipt or typing message found in it reaches its client callback (or an error is reported), whatever else the message carries, and so do the sent and read parts of a synchronisation message and the receipts of the server. A call message goes to MessageHandler if the client registered no CallMessageHandler; otherwise a callback is called only for its own kind of message. A callback the client did not register is skipped, never called.",
  ["inputs", "configurations"], "every envelope type, every content kind, every subset of registered callbacks",
  "No test dispatches a message.",
  ["textsecure.go", "handler.go", "sync.go"], [("dispatch", "textsecure.go: handleReceivedMessage, handler.go: handleMessage, sync.go: handleSyncMessage")],
  ["client callbacks"], ESP, "Every way through the receiving functions, from the envelope to the callbacks; a content is taken to carry one kind of message.")

P("C21", "Synchronisation messages are accepted only from the user's own account",
  "The effects of a synchronisation message - callbacks with messages attributed to the user or with read marks, contact or group list transfers, verification answers, changes to sessions, contacts or groups - occur only after its authenticated sender was found to be the user's own account, and not to be empty.",
  ["inputs"], "every sender and every synchronisation content",
  "No test handles a synchronisation message.",
  ["sync.go", "handler.go"], [("own-account check", "sync.go: handleSyncMessage")],
  ["client callbacks and replies caused by synchronisation messages"], ESP, "Every way from the envelope to an effect; the authenticated sender is the source of the envelope whose session decrypted the message, or the address in the certificate of a sealed message.")

P("C22", "A message is attributed to its authenticated sender",
  "The sender shown to the client with a data, call, receipt or typing message, the session a message is decrypted with, and the name whose sessions are deleted or whose profile key is changed because of a message, are the source of its envelope, or for sealed messages the address in the verified sender certificate - never an address the sender wrote inside the content, and never another or an empty one. A server receipt is handed on with the source, device and time of its envelope. (What the user's own devices report as sent names the recipient instead, but its profile key is never stored as that of the recipient.)",
  ["inputs"], "every envelope and content",
  "No test handles a message.",
  ["textsecure.go", "handler.go", "contacts"], [("source propagation", "textsecure.go: handleReceivedMessage, handleFlags; handler.go")],
  ["Message source given to callbacks", "session deletions", "contact profile keys"], "static analysis: provenance dataflow over SSA terms", "Every way from the envelope to a callback or change; trusts the crayfish backend to verify sender certificates.")

P("C23", "A group change is applied only if its author is entitled to it",
  "Every kind of action that can be applied to a version 2 group changes the group and reports success only after the author's right to it has been established from the state of the group: announcements-only, the access rules, the invite link's password, roles and the admission of requesting members need an administrator; title, avatar, description and timer an administrator, or a member if the access rule for attributes permits members; inviting an administrator, or a member if the access rule for members permits it; adding members the same, or that the author adds only itself and the access rule for members or (with the equal password) for the invite link permits anyone; a request to join that the author adds only itself with the link's password while the link requires approval; removing members, invitations or requests an administrator or that only the author itself is concerned; new profile keys and accepted invitations a verified presentation of the author itself. Someone becomes administrator by being added or invited only through an administrator. The author is taken for a member only if both its own encrypted id and the group's key are equal. A whole change succeeds only if the actions of every kind were applied without an error and the resulting state was validated; otherwise it fails with an error.",
  ["inputs", "histories"], "every change a server or member can send, against every group state",
  "No test applies a group change.",
  ["groupsv2", "entities/groupUser.go"], [("authorization", "groupsv2: GroupChangeApplicator.Apply*, DecryptedGroup validators"), ("identity", "entities.GroupUser.IsMember"), ("whole change", "groupsv2: ModifyGroup, ValidateFinalGroupState")],
  ["state of the group in memory", "errors of applying a change"], ESP, "All paths of every exported method of GroupChangeApplicator that takes an action, and of every exported function that applies a whole change. What the rights are decided from must be the group's state as the method was given it; a refused change may leave the group in memory partly changed (the error is the guarantee).")

P("C24", "Group changes are acted on only with a valid server signature",
  "The actions of a signed group change received in a message are decoded, and acted on, only after the server's signature over those very bytes has been verified with the server parameters built into the library; a change whose verification fails, cannot be made (no signature, no actions, unreadable change) or is left out is rejected with an error.",
  ["inputs", "fault_sequences"], "every change and every failure of the verification machinery",
  "No test processes a group change.",
  ["groupsv2"], [("signature check", "groupsv2/groupsv2.go: HandleGroupsV2")],
  ["groupsv2.HandleGroupsV2 and the handling of a message with a group change"], ESP, "All paths of every reachable function that decodes a group change; trusts zkgroup's VerifySignature.")

P("C25", "Nothing is sent to a group the user has not joined",
  "A message is sent to a (version 2) group only after the user's membership, as it was last determined, has been found to be full; with a pending, removed or unknown membership, or when it cannot be determined, the send fails with an error. Membership is recorded as full only when the own account is found among the members of the group, or after the server accepted the change that made it so; determining it anew always replaces what was recorded.",
  ["histories", "fault_sequences"], "every membership state and every server failure",
  "No test sends to a group or joins one.",
  ["groups.go", "groupsv2"], [("membership check", "sendGroupV2Helper, groupsv2 CheckJoinStatus and JoinStatus"), ("joining", "groupsv2 AddPendingMembers, JoinGroup")],
  ["messages to group members"], ESP, "All paths of every function that sends with a group context, that sets a group's status or puts a group in the table; legacy groups have no membership state and are outside.")

P("C26", "Secrets never reach the log or an error text",
  "The library never passes a secret to a logging, printing or panic call, nor builds an error text from one, nor returns one from a String or Error method, directly, through helpers, as part of a structure that is printed as a whole, or in encoded form. Secrets are: private, root, chain, message and storage keys, passwords, the signaling key, profile and access keys, verification codes and PINs, credentials, attachment keys, group master keys (and the group ids derived from them), invite link passwords, and decrypted contents of messages and group attributes.",
  ["inputs", "histories"], "every log statement and error text, whatever path reaches it",
  "Tests do not inspect log output, and most leaks sit on failure paths no test takes.",
  ["textsecure.go", "handler.go", "websocket.go", "crayfish", "profiles", "axolotl/keys.go", "groupsv2"], [("log statements and error texts", "throughout the library")],
  ["log output", "error texts"], "static analysis: whole-program interprocedural taint analysis over SSA (field-based, function summaries)", "Every logging call, print, panic, error construction and String/Error method of the library (the command line program in cmd is outside).")

P("C27", "Names chosen by others cannot escape the storage directories",
  "No path that is opened, read, written, removed, listed or tested can be led out of its directory by a text from elsewhere: text fields of protocol messages and of answers of the server (sender addresses, account ids in profiles, group ids, attachment names, headers) and requests to the command line program's gateway never become part of a path, and identifiers that an application passes to the library never become a path element below one of the library's directories, unless they were encoded, checked or cut so that they contain no separator.",
  ["inputs", "histories"], "every file operation and every text that can reach its path",
  "Tests use well-formed names; that no flow from any message field to any file operation is unchecked is a property of the whole program.",
  ["store.go", "groups.go", "groupsv2/groupsv2.go", "profiles/avatars.go", "contacts", "cmd/textsecure/main.go"], [("path construction", "store.go, groups.go, groupsv2/groupsv2.go, profiles/avatars.go")],
  ["files in the storage directory"], "static analysis: whole-program interprocedural taint analysis over SSA with sanitizers and dominating checks", "Every call of os, io/ioutil and path/filepath that takes a path, in the library and the command line program.")

P("C28", "A reply channel is ready before its request is sent",
  "When the library hands a request over and waits for the answer on a channel kept in one of its structures (requests to the helper process), that channel is in place before the request is handed over, so an answer that comes at once finds it; and the receiving side never drops an answer because nobody waits on the channel yet.",
  ["schedules"], "every interleaving of the sender with the receiving goroutine",
  "The lost wake-up needs a particular schedule; no test runs it.",
  ["crayfish"], [("request/response", "crayfish: CrayfishInstance.HandleEnvelope, DecryptAvatar, CrayfishRegisterWithCode, handleCrayfishResponseMessage")],
  ["requests to the helper process"], ESP, "Every receive from, and send to, a channel kept in a structure of the module.")

P("C29", "Key derivation never yields short, shared or overlapping keys",
  "Every HKDF derivation returns exactly the requested number of bytes or an error, and a failure is reported. The parts cut from one derived buffer (HKDF or PBKDF2) for different purposes do not overlap, together are the whole buffer, and fill the keys they are copied into. HKDF derivations at different places use different, fixed labels, and the chain's next key and its message keys are derived from different seeds.",
  ["inputs", "fault_sequences"], "every derivation and every failure of it",
  "A consistent mistake on both sides round-trips in tests.",
  ["axolotl/ratchet.go", "crypto.go", "crypto", "contactsDiscovery", "store.go"], [("derivations", "axolotl: DeriveSecrets and users; crypto.HKDFderiveSecrets; store.genKeys; contactsDiscovery remote attestation")],
  ["derived keys"], ESP, "Every derivation call in the module.")

P("C30", "Both ends of a new session derive the same secrets",
  "The key agreements combined by the party that starts a session and by the party that receives its first message are the same ones in the same order, with the one-time pre-key agreement present on one side exactly when it is on the other (that is, when a one-time key and its non-zero id were both given), and each side files the derived root and chain keys, identities, base key, registration ids and version under the keys both will use. Everything the starter used (identity, base key, pre-key ids) is sent in every message until an authenticated answer arrives. When a new ratchet key of the peer arrives, the receiving chain is derived from the current root key and the sending chain and next root key from the root key derived with it, with a fresh key pair.",
  ["inputs", "histories"], "every bundle and first message, with and without a one-time pre-key; every ratchet step",
  "No test establishes a session.",
  ["axolotl/ratchet.go", "axolotl/session.go", "axolotl/messages.go"], [("agreement order", "axolotl: initializeSenderSession, initializeReceiverSession"), ("one-time key", "axolotl: SessionBuilder.BuildSenderSession, BuildReceiverSession"), ("first messages", "axolotl: SessionCipher.SessionEncryptMessage"), ("ratchet step", "axolotl: getOrCreateChainKey")],
  ["established sessions", "first messages"], ESP + " comparing the symbolic key-agreement sequences of both roles", "All paths of both session builders, of encryption and of the ratchet step.")

P("C31", "Uploaded attachments are encrypted, authenticated and described truthfully",
  "Whatever is uploaded to the content server is a random vector, the encryption of the complete content read from the source and an untruncated MAC over both, under the two halves of 64 random bytes made for this upload. The attachment pointer sent to recipients carries exactly those keys, the SHA-256 digest of exactly the uploaded bytes, the length of the content and the CDN key and number of the place it was uploaded to. The message that links a new device leaves the device only encrypted and authenticated (version byte included) under keys derived from an agreement between a fresh key pair, whose public key is sent along, and the new device's key.",
  ["inputs"], "every attachment content, every provisioning message",
  "No test uploads or links a device.",
  ["attachments.go", "crypto.go", "server.go", "sync.go"], [("upload", "attachments.go: uploadAttachmentV3, putAttachmentV3"), ("pointers", "server.go createMessage; sync.go"), ("provisioning", "crypto.go provisioningCipher; server.go addNewDevice")],
  ["uploaded bodies, attachment pointers, provisioning envelopes"], ESP, "All paths of every function that uploads to the content server, fills an attachment pointer or builds a provisioning envelope.")

P("C32", "Message length is hidden by padding on every send",
  "Every content sent to another user or device is padded before it is encrypted: its length becomes a multiple of 160 bytes and the byte behind the content is 0x80. A received content is parsed only after its padding, from the 0x80 on, was removed (for sealed messages the backend does that).",
  ["inputs"], "every content of every length",
  "No test sends or receives a message.",
  ["sender.go", "server.go", "textsecure.go"], [("padding", "server.go: padMessage, stripPadding; their callers")],
  ["plaintext given to the session encryption", "bytes parsed as content"], "static analysis: symbolic length and provenance dataflow over SSA terms", "Every way to SessionEncryptMessage and from the session decryption to the parsing of a content.")

P("C33", "Published keys are always backed by stored private keys",
  "A pre-key (one-time or signed) is returned, put where it is published from, or has its public half read for publication only after the very record was stored without an error, under its own id; that id is in 1..0xFFFFFE or the last-resort key's. The signed pre-key's signature is made with the account's identity key over the public key of the pair stored, and id, key and signature published for a key come from one record. A registration id, password, signaling key or identity key generated for a new account is stored without an error before the first request that uses the account. The store looks a key, session, identity or registration id up in the file it was stored in, and no two kinds share a file.",
  ["fault_sequences", "crash_points", "inputs"], "every failure or crash during registration and key generation, every random id",
  "No test registers or generates the keys of an account.",
  ["prekeys.go", "textsecure.go", "store.go", "axolotl/prekeys.go"], [("key generation", "prekeys.go: generatePreKey, generateSignedPreKey, generatePreKeyState"), ("registration order", "textsecure.go: Setup"), ("places", "store.go: the methods of store")],
  ["uploaded key state", "key files"], ESP, "All paths of the functions that make pre-key records, of the registration and of the store's methods; which key is the last-resort one is taken from the order of the files.")

P("C40", "A sent message reaches every device of every recipient, as it was asked for",
  "The content sent for a device is what the session with that very device encrypted, with the type of that encryption and the registration id of that session. When a message is sent, none of the devices on the recipient's list is left out, and when one is sent to a group, none of its members (the own account excepted): success is reported only if each got its entry, or its message without an error. When the server names missing, extra or stale devices, the message is sent again only after the missing ones were put on that recipient's list, the extra ones taken off it and the sessions of the stale ones deleted, and the same message with the same time is sent again. The sessions, the address of the request and the destination in it are those of one recipient; the time in the message, in the request and the one returned are the same, for all members of a group. If the server asks for it, the user's other devices are sent the message, with its time and recipient. The message carries the text, the disappearing time and (only for EndSession) the end-of-session flag the application asked for.",
  ["inputs", "fault_sequences", "histories"], "every list of devices and members, every answer of the server, every failure while sending",
  "No test sends a message.",
  ["server.go", "sender.go", "groups.go", "textsecure.go"], [("entries and repair of the device list", "server.go: buildMessage, buildAndSendMessage"), ("message and sync message", "sender.go: sendMessage; server.go: createMessage"), ("members", "groups.go: sendGroupHelper, sendGroupV2Helper, sendUpdate, RequestGroupInfo, LeaveGroup")],
  ["requests to the server", "reported success"], ESP, "All paths of the functions that encrypt and send; a failure of the message to the user's own devices is not reported to the application.")

P("C41", "The application is shown each message as it was sent",
  "A message handed to MessageHandler, and one from another device of the account handed to SyncSentHandler, has the text, time, disappearing time, quote, contacts, sticker and reaction of the data message it was made from; its attachments are those of the message, all of them, in their order, each with the type and name its sender gave it and the content downloaded from the place its pointer names, opened with the key in the pointer and without the padding behind its stated size, or the message is refused with an error; it shows the end-of-session and profile-key flags exactly if the message has them, and the group whose key the message names, and no group only if it names none. The profile key stored because of a message is the one in it. A receipt for several messages, and each of several read marks, reaches its callback once for every message it names, and receipts and call messages are labelled as what they are.",
  ["inputs"], "every content a peer or another device of the account can send",
  "No test handles a received message.",
  ["handler.go", "sync.go", "attachments.go", "groups.go", "groupsv2/groupsv2.go", "textsecure.go"], [("messages", "handler.go: handleDataMessage; sync.go: handleSyncSent"), ("receipts and read marks", "handler.go: handleReceiptMessage; sync.go: handleSyncRead"), ("attachments", "attachments.go: handleAttachments, handleSingleAttachment")],
  ["arguments of the client callbacks"], ESP, "All paths from a received envelope to the callbacks; the bytes of the text are taken for what proto decoding yields.")

P("C42", "What was changed is still there after a restart",
  "An operation that changes the configuration, the list of contacts or what is kept of a group, and reports success, has written the file it is kept in after the last change, with the changed state in it (a failure of that write is the matter of C18). The file of contacts gets every contact of the list, and every contact read from it is put back into the list; the configuration and the contacts are written to the file they were read from, and every field of configuration, contacts and groups that the library sets is among those written and read. (Not meant: what the server says of the account's capabilities, the membership status, which is determined anew, and the last change of a group that is shown to the application.)",
  ["histories", "crashes"], "every sequence of changes, with the process ended at any point between operations",
  "No test writes configuration, contacts or groups and reads them again.",
  ["config.go", "contacts/contacts.go", "groups.go", "groupsv2/groupsv2.go", "groupsv2/groupModify.go", "profile.go", "profiles/profile.go", "server.go", "textsecure.go"], [("configuration", "config.go: saveConfig, ReadConfig"), ("contacts", "contacts/contacts.go: WriteContactsToPath, LoadContacts"), ("groups", "groups.go: saveGroup; groupsv2/groupsv2.go: saveGroupV2")],
  ["content of the files"], ESP, "All paths from a change to the return of the operation, through at most two callers; a change that is not followed by any error report and any save on some path is found, a lost write of the operating system is not.")

P("C34", "Concurrent use causes no data race",
  "The library's shared state (configuration, group and contact tables, callback tables, connections) is not accessed by two goroutines at once without synchronisation.",
  ["schedules"], "every interleaving of the listener, senders and client calls",
  "The tests are single threaded.", ["textsecure.go", "groups.go", "groupsv2"], [("shared maps", "package variables")], ["shared state"],
  na="Whether two accesses can overlap depends on how the client program calls the library from its own goroutines; the package-level tables are unsynchronised by design (single-threaded client contract) and a static race rule would either flag them all or prove nothing.")
P("C35", "Session peers converge for every delivery order",
  "Two clients exchanging messages in any order, with losses within the window, always derive the same message keys and can decrypt each other's messages.",
  ["histories", "schedules"], "every delivery order of every exchange", "The tests have no session.", ["axolotl/session.go", "axolotl/ratchet.go"], [("double ratchet", "axolotl/session.go")], ["decrypted plaintexts"],
  na="Equality of key chains on two sides after arbitrary exchanges is a relational property of runtime values (curve arithmetic, counters, histories); no sound static argument in reach bounds it. Its statically decidable parts are C01, C05-C07, C10, C29 and C30.")
P("C36", "Re-sending after a device mismatch terminates",
  "A send refused because the recipient's device list is stale or incomplete is repeated only finitely often, with sessions created or dropped as the server said.",
  ["inputs", "histories"], "every sequence of server answers", "No test talks to a server.", ["server.go"], [("409/410 handling", "server.go: buildAndSendMessage")], ["send results"],
  na="Termination depends on the server's answers: the recursion is unbounded by construction if the server keeps answering 409/410, and no ranking argument exists in the code for a static analysis to find.")
P("C37", "The remote attestation of the contact discovery enclave is genuine",
  "Contact numbers are encrypted only to an enclave whose quote and signing chain were verified against the expected measurement.",
  ["inputs"], "every attestation response", "The test covers one vector of the crypto only.", ["contactsDiscovery", "transport"], [("attestation", "GetAndVerifyMultiRemoteAttestation")], ["contact discovery requests"],
  na="The verification this property needs (quote parsing, certificate chain, measurement comparison) is not implemented in the pinned tree, so there is no mechanism to analyse; a permanent finding would be all a check could say.")
P("C38", "Padding and serialisation round-trip for every message",
  "Removing padding from a padded message, and parsing a serialized key, session or message, always gives back the original value.",
  ["inputs"], "every content", "The tests sample nothing here.", ["crypto.go", "axolotl"], [("codecs", "padMessage, stripPadding, Load*/Serialize")], ["parsed values"],
  na="A functional inverse property over byte values: deciding it needs symbolic or concrete evaluation of loops over data, outside static analysis as scoped here. Lengths and presence of fields are covered by C12.")
P("C39", "A safety number is made from both accounts' identifiers and identity keys",
  "When the application asks for the safety number with a contact, it gets a number only if an identity key of the contact is recorded, and the number and the scannable code are then computed from the account's own identifier (its telephone number) and its own public identity key, and from the contact's identifier as given and the identity key recorded for that contact at the time of the request. In the scannable code the own half is made from the whole own identifier and the own key, and the contact's half from the contact's; the version is the one asked for; the number is made from all four.",
  ["inputs", "histories"], "every pair of accounts, every contact and every sequence of changes of the recorded keys",
  "The fingerprint tests check the computation on one pair of identities; none goes through the store, the configuration or the recorded identities, and none looks at which half of the code is whose.",
  ["fingerprint/fingerprint.go", "fingerprint/fingerprint_numbers.go", "fingerprint/qr_fingerprint.go", "store.go"], [("request", "store.go: GetFingerprint, ContactIdentityKey, MyIdentityKey"), ("computation", "fingerprint/fingerprint.go: CreateFingerprintSimple; fingerprint/qr_fingerprint.go")],
  ["displayed safety number", "scannable code"], ESP + " For the computation: a context-sensitive, field-sensitive data-dependence analysis.", "All paths of the request and all calling contexts of the computation. That two contacts get equal numbers, and others different ones, rests on the hash and on the digit arithmetic, which the vector tests cover.")

def main():
    claimed = json.load(open(os.path.join(HERE, "gen", "claimed.json")))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["obs"], "hook_needed": None}
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["st"], "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
    for p in PROPS:
        if p["na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        elif p["id"] in claimed:
            m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"], "technique": p["tech"], "level": "other", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": "Not claimed: its static check is not built yet."})
    m["notes"] = "One analyzer (analyzer/, Go, x/tools SSA) decides every claimed property from /repo's current source; no hooks are needed in /repo."
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
