#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Commitments open to exactly what was committed",
 "A commitment verifies for exactly the data and salt it was created with: any change of the data, of the salt or of the commitment value, including moving bytes between salt and data, makes verification fail. Two commitments to the same data always differ, and the system's hash of any sequence of byte strings is the 32-byte SHAKE128 of their concatenation. Neither hashing nor committing nor verifying modifies its inputs.",
 ["inputs"], "all byte strings and splits of them, all single and structural mutations of an opening",
 "The unit tests commit to one fixed pair of strings and check one failing opening; binding is a statement about every alternative opening.",
 ["crypto/util.go"],
 [("salted hash commitment", "crypto/util.go NewCommit/Verify"), ("SHAKE128 digest", "crypto/util.go Digest")],
 observe=["crypto.Commit", "crypto.Digest", "crypto.MakeRand"])

prop("C02", "Signatures verify exactly for the signed message and key",
 "For every key pair and message, the signature produced verifies under that key's public half, and is the standard Ed25519 signature (deterministic, 64 bytes). Verification fails for every other message, every altered signature and every other key pair's public key. Signing and verifying leave their inputs unchanged, and key generation fails when its randomness source fails.",
 ["inputs", "fault_sequences"], "all keys, messages, single-bit and structural mutations, failing or short randomness sources",
 "Tests sign one message with one key and check one wrong message.",
 ["crypto/sign/sign.go"],
 [("Ed25519 wrapper", "crypto/sign/sign.go Sign/Verify/Public/GenerateKey")],
 observe=["sign.PrivateKey", "sign.PublicKey"])

prop("C03", "The VRF is complete, deterministic and matches its definition",
 "For every VRF key and name, the value computed directly and the value computed with a proof are the same 32 bytes, and the proof verifies for that name, value and public key. The value and the proof are deterministic and are those given by the construction's published definition (hash-to-curve, scalar multiplication, challenge/response) evaluated with independent arithmetic. Distinct names and distinct keys give distinct values.",
 ["inputs"], "all VRF keys and all names (empty, long, binary)",
 "Tests use a handful of names; the vector test in the repository skips itself, so no test pins the function's actual values.",
 ["crypto/vrf/vrf.go", "crypto/internal/ed25519/extra25519/extra25519.go", "crypto/internal/ed25519/edwards25519/edwards25519.go"],
 [("prover", "crypto/vrf/vrf.go Prove/Compute"), ("hash to curve", "crypto/vrf/vrf.go hashToCurve; extra25519.go HashToEdwards"), ("verifier", "crypto/vrf/vrf.go Verify")],
 observe=["vrf.PrivateKey.Compute", "vrf.PrivateKey.Prove", "vrf.PublicKey.Verify"])

prop("C04", "No name has two verifiable VRF values under one public key",
 "Under a fixed public key, no proof makes a value other than the name's own VRF value verify, not even a proof made by the holder of the private key using small-order or otherwise unusual curve points. A proof with any flipped bit, of wrong length, for another name, another value or another public key is rejected without crashing. Public keys and proof elements that are not valid prime-order group elements in canonical form are rejected.",
 ["inputs"], "all alterations of honest proofs and adversarially constructed proofs by a prover who knows the key",
 "Tests flip each bit of one proof; they build no proof by a malicious prover, which is what uniqueness is about.",
 ["crypto/vrf/vrf.go", "crypto/internal/ed25519/edwards25519/edwards25519.go"],
 [("length checks", "crypto/vrf/vrf.go Verify"), ("prime-order point validation", "edwards25519.go FromBytesBaseGroup"), ("challenge recomputation", "crypto/vrf/vrf.go Verify")],
 observe=["vrf.PublicKey.Verify"])

prop("C05", "Curve25519 arithmetic equals its mathematical definition",
 "Field, scalar and group operations on Edwards25519 (addition, doubling, multiplication, inversion, single and double scalar multiplication, reduction, point encoding and decoding, and the map from strings to points) give the mathematically defined result for every valid input. Encoded outputs are canonical and decoding accepts exactly the encodings of curve points. Validation of base-group membership accepts exactly the canonical non-identity points of prime order.",
 ["inputs"], "all field elements, scalars (reduced, unreduced, boundary values) and curve points including small-order ones",
 "Tests compare a few routines with each other on pseudo-random points; nothing compares them with an independent definition or exercises carry and boundary values.",
 ["crypto/internal/ed25519/edwards25519/edwards25519.go", "crypto/internal/ed25519/edwards25519/const.go", "crypto/internal/ed25519/extra25519/extra25519.go"],
 [("field arithmetic", "edwards25519.go Fe*"), ("group arithmetic", "edwards25519.go Ge*"), ("scalar arithmetic", "edwards25519.go Sc*"), ("Elligator map", "extra25519.go")],
 observe=["edwards25519 exported functions", "extra25519 exported functions"])

prop("C06", "Integer and bit-string encodings are exact and lossless",
 "Converting bytes to bits and back is the identity, bits are ordered most significant first, and reading the n-th bit agrees with the conversion at every position; bit strings whose length is not a multiple of eight are zero-padded at the end. Integers are encoded as fixed-width little-endian bytes that decode to the same integer for every value. Path resolution leaves absolute paths alone and places relative ones next to the file that mentions them, and writing a file never replaces one that already exists.",
 ["inputs"], "all byte strings, bit strings, integers and paths",
 "Tests check a few literals.",
 ["utils/coname.go", "utils/utils.go"],
 [("bit conversion", "utils/coname.go ToBytes/ToBits; utils/utils.go GetNthBit"), ("integer encoding", "utils/utils.go LongToBytes/ULongToBytes/UInt32ToBytes"), ("no-clobber write", "utils/utils.go WriteFile"), ("path resolution", "utils/utils.go ResolvePath")],
 observe=["utils package"])

prop("C07", "Every lookup in a tree snapshot yields a verifying, correct proof",
 "After any sequence of insertions and updates, looking up any name in a snapshot gives a proof that verifies against the snapshot's root: a proof of inclusion carrying exactly the value last set before the snapshot if the name was set, and a proof of absence revealing neither value nor salt otherwise. The root is the hash defined for the set of entries (independent of the order in which they were inserted), and the proof verifies for no other value.",
 ["histories", "inputs"], "all operation sequences and all index sets, including indices sharing arbitrarily long prefixes",
 "Tests insert up to three keys whose indices share at most a few bits.",
 ["merkletree/merkletree.go", "merkletree/node.go", "merkletree/proof.go"],
 [("insertion and leaf push-down", "merkletree/merkletree.go insertNode"), ("path construction", "merkletree/merkletree.go Get"), ("hash caching and invalidation", "merkletree/node.go hash; merkletree.go insertNode"), ("proof check", "merkletree/proof.go Verify")],
 state=[("tree", "prefix tree of commitments", "merkletree/merkletree.go MerkleTree")],
 observe=["MerkleTree.Set/Get/Clone", "PAD.Lookup", "AuthenticationPath.Verify"])

prop("C08", "A tree root never authenticates two different answers for a name",
 "For any tree root, at most one answer per name can be proved: if a proof of inclusion for one value verifies, then no proof, however its fields (siblings, nonce, indices, level, emptiness, commitment, lengths) are altered or recombined, makes a different value or the name's absence verify against the same root, and vice versa. Altered proofs that no longer match the root are rejected with an error, and malformed ones are rejected without crashing.",
 ["inputs"], "all alterations, recombinations and adversarial constructions of proofs by the party that built the tree",
 "Tests try one altered value and one altered index per proof type; soundness is a claim about every alteration, including re-splitting of hashed fields.",
 ["merkletree/proof.go", "crypto/util.go"],
 [("proof type and index checks", "merkletree/proof.go Verify/ProofType"), ("leaf hashing with domain separation", "merkletree/proof.go hash"), ("commitment check", "crypto/util.go Commit.Verify")],
 observe=["AuthenticationPath.Verify", "AuthenticationPath.ProofType"])

prop("C09", "Snapshots never change after they are taken",
 "Once a snapshot of the dictionary or a clone of a tree exists, its root, its signed root object and every proof obtained from it stay the same whatever is later inserted, updated or snapshotted in the original, and changes to a clone never show in the original. A value passed in for insertion may be modified by the caller afterwards without affecting what is stored.",
 ["histories"], "all interleavings of insertions, updates, snapshots, clones and reads",
 "The clone test performs one insertion; aliasing between snapshot and live tree shows only on particular later updates.",
 ["merkletree/merkletree.go", "merkletree/node.go", "merkletree/pad.go"],
 [("deep clone", "merkletree/node.go clone; merkletree.go Clone"), ("value copy on insert", "merkletree/merkletree.go Set"), ("snapshot creation", "merkletree/pad.go signTreeRoot")],
 observe=["MerkleTree.Clone", "PAD.GetSTR", "PAD.LookupInEpoch"])

prop("C10", "Signed roots form one verifiable chain over all their contents",
 "Epochs start at 0 and grow by exactly one per update; every signed root is correctly signed by the directory's key, names the previous epoch and contains the hash of the previous signed root's signature, so adjacent ones pass the chain check and no other pair does. The signature covers the epoch, the previous epoch (from epoch 1 on), the tree root, the previous hash and every policy field: altering any single one of them makes it invalid. Associated data given at an update first appears in the next signed root after it, and is carried forward until replaced.",
 ["histories", "inputs"], "all update histories with any associated data, and all alterations of any field",
 "Tests follow chains of three or four fixed updates and alter no field systematically.",
 ["merkletree/pad.go", "merkletree/str.go", "protocol/str.go", "protocol/policy.go"],
 [("STR creation", "merkletree/pad.go signTreeRoot/updateInternal; str.go NewSTR"), ("serialization", "merkletree/str.go SerializeInternal; protocol/str.go Serialize; protocol/policy.go Serialize"), ("chain check", "merkletree/str.go VerifyHashChain")],
 observe=["PAD.LatestSTR", "PAD.GetSTR", "DirSTR.Serialize", "VerifyHashChain"])

prop("C11", "Past epochs are answered as they were, or reported as evicted",
 "A lookup in a past epoch returns the proof for the dictionary as it was in that epoch, or the documented not-found error if that epoch was evicted; an epoch that was once evicted never reappears and no other epoch's data is ever substituted. The latest epoch is always available, at least half the configured capacity of most recent epochs is retained, and never more snapshots than the capacity of at least two. Asking for an epoch at or beyond the latest gives the latest.",
 ["histories", "configurations"], "all update/insert histories and all cache capacities from two upwards",
 "Tests use one capacity and check only the number of cached snapshots, not their content.",
 ["merkletree/pad.go"],
 [("eviction", "merkletree/pad.go Update"), ("historical lookup", "merkletree/pad.go LookupInEpoch/GetSTR")],
 state=[("cached snapshots", "epochs kept in memory", "merkletree/pad.go snapshots/loadedEpochs")],
 observe=["PAD.GetSTR", "PAD.LookupInEpoch", "PAD.Lookup"])

prop("C12", "Randomness failures surface as errors and corrupt nothing",
 "When the system's randomness source fails at any call, the operation that needed it reports an error (creation returns it or panics with it, insertion returns it, a registration answers with a directory error) and has no effect: the name is neither bound nor promised, later lookups, registrations and updates behave as if the failed operation had not been made, and all proofs still verify. Random values are never taken from a failed or truncated read.",
 ["fault_sequences", "histories"], "every point at which a randomness read can fail within any operation history",
 "Tests inject failure once, into a single call on an otherwise empty structure.",
 ["crypto/util.go", "merkletree/merkletree.go", "merkletree/pad.go", "protocol/directory/directory.go"],
 [("error propagation", "crypto/util.go MakeRand/NewCommit; merkletree.go Set/NewMerkleTree; pad.go NewPAD"), ("registration order: insert before promise", "protocol/directory/directory.go Register")],
 observe=["ConiksDirectory.Register", "PAD.Set", "NewPAD"])

prop("C13", "The directory answers every request as documented",
 "For every history of registrations, lookups and epoch updates, registration and key lookup return exactly the documented result code, proof type, promise presence, bound key and current signed root: an empty name or key is malformed, an unknown name is not found, a name registered this epoch is answered with absence plus its promise, and a name already in the snapshot with inclusion and no promise. Every returned proof verifies against the returned signed root and carries a valid proof that the index belongs to the requested name. Lookups never change any later answer.",
 ["histories", "inputs"], "all request histories over all usernames and keys, malformed requests included",
 "The directory tests check three short scripted histories and result codes only.",
 ["protocol/directory/directory.go", "protocol/message.go", "merkletree/pad.go"],
 [("registration", "directory.go Register"), ("lookup", "directory.go KeyLookup"), ("response constructors", "protocol/message.go New*Proof")],
 state=[("directory", "latest snapshot plus pending promises", "directory.go ConiksDirectory")],
 observe=["ConiksDirectory.Register", "ConiksDirectory.KeyLookup"])

prop("C14", "First registration wins and every promise is kept",
 "The first successful registration of a name fixes its key: any later registration of that name, in the same or a later epoch, is refused and changes nothing. Every successful registration returns a promise carrying the name's index and key and signed over the current signed root, the same promise is returned for that name until the epoch ends, and the very next snapshot and all later ones include exactly the promised binding. Promises end with their epoch.",
 ["histories"], "all registration/update histories, duplicate and competing registrations included",
 "Tests register one name twice with the same key.",
 ["protocol/directory/directory.go", "protocol/tb.go"],
 [("pending promises", "directory.go Register/NewTB/Update"), ("promise serialization", "protocol/tb.go Serialize")],
 state=[("tbs", "promises issued in the current epoch", "directory.go tbs")],
 observe=["ConiksDirectory.Register", "ConiksDirectory.KeyLookup", "ConiksDirectory.KeyLookupInEpoch"])

prop("C15", "Epoch-range requests return exactly the requested history",
 "Monitoring, past-epoch lookup and signed-root history requests return one entry per epoch of the requested range in order, clamped to the latest epoch as documented, each proof verifying against the signed root of its own epoch and showing the binding as of that epoch. Ranges that start beyond the latest epoch or end before they start, and past-epoch lookups beyond the latest epoch, are malformed; ranges reaching epochs no longer kept in memory get a directory error. No combination of epochs, however extreme, makes the directory crash, hang or return an empty success.",
 ["inputs", "histories", "configurations"], "all pairs of 64-bit epochs, all histories and snapshot capacities, names registered at any epoch or never",
 "Tests ask for one or two fixed ranges and never for evicted epochs.",
 ["protocol/directory/directory.go", "merkletree/pad.go"],
 [("range handling", "directory.go Monitor/KeyLookupInEpoch/GetSTRHistory")],
 observe=["ConiksDirectory.Monitor", "ConiksDirectory.KeyLookupInEpoch", "ConiksDirectory.GetSTRHistory"])

prop("C16", "Policies are announced, signed and changed only at epoch boundaries",
 "Every signed root carries and signs the directory's protocol version, hash algorithm, VRF public key and epoch deadline; the VRF key never changes and verifies every index the directory hands out. A changed epoch deadline never affects signed roots already issued, appears in the announced policies only through later updates (the second update after the change), and the last change before an update wins.",
 ["histories", "configurations"], "all interleavings of policy changes and updates, all deadline values",
 "One test performs one change and two updates.",
 ["protocol/policy.go", "protocol/directory/directory.go", "merkletree/pad.go"],
 [("policy change", "directory.go SetPolicies/Update"), ("associated data timing", "merkletree/pad.go updateInternal"), ("serialization", "protocol/policy.go Serialize")],
 observe=["ConiksDirectory.LatestSTR", "ConiksDirectory.EpochDeadline", "Policies.Serialize"])

prop("C17", "An auditor accepts exactly the consistent extensions of its history",
 "Given its last verified signed root, an auditor accepts a non-empty list of signed roots if and only if the first is identical to it or its direct successor, every further one directly succeeds the one before, and every one beyond the verified root is validly signed. Everything else (gaps, reorderings, older or forked roots, altered fields, foreign signatures, missing entries) is rejected with the appropriate error and without crashing. Checking never changes the auditor's verified state.",
 ["inputs", "histories"], "all lists over honest, forked, foreign, altered and missing signed roots, relative to every verified epoch",
 "Tests alter one signature or one hash in a chain of a few roots.",
 ["protocol/auditor/auditor.go", "merkletree/str.go"],
 [("comparison with pinned root", "auditor.go CheckSTRAgainstVerified/compareWithVerified"), ("range check", "auditor.go VerifySTRRange/verifySTRConsistency"), ("list audit", "auditor.go AuditDirectory")],
 state=[("verified root", "latest verified signed root", "auditor.go AudState.verifiedSTR")],
 observe=["AudState.AuditDirectory", "AudState.CheckSTRAgainstVerified", "AudState.VerifySTRRange", "AudState.VerifiedSTR"])

prop("C18", "The audit log stores and serves exactly the audited histories",
 "After any sequence of initialisations and audits, a request for a range of a known directory returns exactly the signed roots accepted for that directory at those epochs, in order; an unknown directory and a range that is inverted or exceeds the observed history get the documented error. A rejected audit or initialisation changes nothing, a directory's history is only ever extended, and directories never influence each other. Re-initialising a known directory and initialising without an epoch-0 root are refused, and asking for a directory's identity from a later root is refused loudly.",
 ["histories", "inputs"], "all interleavings of initialise, audit (honest, stale, forked, malformed) and range requests over several directories",
 "Tests run scripted sequences on one directory.",
 ["protocol/auditlog/auditlog.go", "protocol/auditor/common.go"],
 [("initialisation", "auditlog.go InitHistory"), ("audit and insertion", "auditlog.go Audit/insertRange"), ("range service", "auditlog.go GetObservedSTRs"), ("identity", "auditor/common.go ComputeDirectoryIdentity")],
 state=[("histories", "snapshots per directory identity", "auditlog.go ConiksAuditLog")],
 observe=["ConiksAuditLog.InitHistory", "Audit", "ConiksAuditLog.GetObservedSTRs"])

prop("C19", "A client accepts every honest directory history",
 "A client that talks to an honest directory at least once per epoch never reports a failed check for its registrations and lookups, in memory or over the wire: registrations it wins, registrations others won, lookups of unknown, pending and included names. After each response its pinned signed root is the directory's current one, it knows the key the directory returned for that name, and the key reported for the response is the bound or promised key. A key it already knows is never reported as changed; only a registration for a name that another key already holds is reported as a differing binding.",
 ["histories", "inputs"], "all honest histories of registrations, lookups and updates by several clients over any names and keys",
 "The client test files in the repository are empty; nothing exercises the client's checks.",
 ["protocol/client/consistencychecks.go", "protocol/message.go", "protocol/auditor/auditor.go"],
 [("response handling", "consistencychecks.go HandleResponse"), ("key extraction", "protocol/message.go GetKey"), ("pinned root update", "consistencychecks.go updateSTR")],
 state=[("bindings, promises, pinned root", "client's consistency state", "consistencychecks.go ConsistencyChecks")],
 observe=["ConsistencyChecks.HandleResponse", "ConsistencyChecks.Bindings", "ConsistencyChecks.VerifiedSTR", "Response.GetKey"])

prop("C20", "A client rejects every dishonest registration or lookup answer",
 "If a directory's answer to a registration or lookup does not prove the claimed outcome for the requested name and expected key under a signed root that continues the client's pinned history, the client reports an error: wrong index proof, another key than expected, unverifiable commitment, path not matching the root, bad or unlinked signed root, result code contradicting the proof, missing or invalid promise. The error names the failed check, and a signed root that fails verification never replaces the pinned one. No alteration of an honest answer that changes its meaning is accepted.",
 ["inputs", "histories"], "all alterations, recombinations, replays and cross-name or cross-directory substitutions of answers",
 "The repository's client tests are empty.",
 ["protocol/client/consistencychecks.go", "merkletree/proof.go", "crypto/vrf/vrf.go", "protocol/auditor/auditor.go"],
 [("proof-type/result-code agreement", "consistencychecks.go verifyRegistration/verifyKeyLookup"), ("index and path check", "consistencychecks.go verifyAuthPath"), ("promise check", "consistencychecks.go verifyReturnedPromise"), ("root check", "consistencychecks.go updateSTR")],
 observe=["ConsistencyChecks.HandleResponse", "ConsistencyChecks.VerifiedSTR"])

prop("C21", "Equivocation is detected by pinned roots and auditors",
 "If a directory shows different signed roots for the same epoch to a client and to an auditor, or forks its history at any earlier epoch, then the client's check of the auditor's answer reports an error, whichever range is returned; if both saw the same history, the check passes for every range that ends at the client's epoch or the next. A client also refuses a directory answer whose root is older than, forked from, or more than one epoch ahead of its pinned root. These checks never change the client's pinned root.",
 ["histories"], "all fork points, fork lengths, audited ranges and client epochs",
 "The repository's client/auditor integration tests are empty.",
 ["protocol/client/consistencychecks.go", "protocol/auditor/auditor.go", "protocol/auditlog/auditlog.go"],
 [("equivocation check", "consistencychecks.go CheckEquivocation"), ("pinned root comparison", "auditor.go CheckSTRAgainstVerified")],
 observe=["ConsistencyChecks.CheckEquivocation", "ConsistencyChecks.HandleResponse"])

prop("C22", "A client detects every broken registration promise",
 "Once a client holds a verified promise for a name, a directory answer in which that name is reported absent without it, is bound to a different key or index, or is again only promised in a later epoch, is reported as an error (the broken-promise error when the other checks pass). A promise is dropped only when the promised binding has been shown included, and an honest directory is never accused.",
 ["histories"], "all histories in which a directory drops, replaces or postpones a promised binding at any epoch, and all honest ones",
 "The repository's client tests are empty.",
 ["protocol/client/consistencychecks.go", "protocol/tb.go"],
 [("promise bookkeeping", "consistencychecks.go updateTBs"), ("fulfilment check", "consistencychecks.go verifyFulfilledPromise")],
 state=[("TBs", "promises held by the client", "consistencychecks.go ConsistencyChecks.TBs")],
 observe=["ConsistencyChecks.HandleResponse", "ConsistencyChecks.TBs"])

prop("C23", "Messages survive the wire unchanged",
 "Every request and every response that the system's components can produce, for names that are text, decodes, after encoding, to the same message: same type, names, keys, epochs, result code, proofs, signed roots with policies, and promise; a decoded response passes and fails the same checks as the original. Signed-root files written by a server load back as the same root.",
 ["inputs", "histories"], "all requests and all responses producible by directories and auditors, all result codes",
 "Tests decode two literal messages.",
 ["application/encoding.go", "application/client/encoding.go", "protocol/message.go", "protocol/str.go", "application/config.go"],
 [("JSON codec", "application/encoding.go"), ("request constructors", "application/client/encoding.go"), ("STR files", "application/config.go SaveSTR/LoadInitSTR")],
 observe=["MarshalRequest/UnmarshalRequest", "MarshalResponse/UnmarshalResponse", "SaveSTR/LoadInitSTR"])

prop("C24", "No byte string from a server can crash a client",
 "Whatever bytes a client receives as the answer to a registration, lookup or audit request, decoding and checking them ends in an accepted answer or an error value, never in a crash, and structurally incomplete messages (missing parts, null parts, truncated proofs) are reported as malformed or as the failed check. A rejected answer whose signed root was not verified leaves the client's pinned root, bindings and promises as they were.",
 ["inputs"], "all byte strings, in particular all structural mutations (deletion, null, type change, truncation, duplication) of valid messages",
 "Two literal malformed messages are tested.",
 ["application/encoding.go", "protocol/message.go", "protocol/client/consistencychecks.go", "protocol/auditor/auditor.go", "merkletree/proof.go"],
 [("response decoding", "application/encoding.go UnmarshalResponse"), ("response validation", "protocol/message.go Validate")],
 observe=["UnmarshalResponse", "ConsistencyChecks.HandleResponse", "ConsistencyChecks.CheckEquivocation"])

prop("C25", "Every byte string sent to a server gets one well-formed answer",
 "Whatever bytes arrive on an allowed connection (up to the size limit, or cut off, or over it: then its first part counts), the server answers with exactly one well-formed response and keeps serving; anything that is not a well-formed permitted request gets the malformed-message code and has no effect on the directory. Requests that are well-formed are answered by the directory operation of their own type with their own parameters.",
 ["inputs", "histories"], "all byte strings and structural mutations of valid requests, interleaved with valid requests",
 "Tests send a few literal requests.",
 ["application/serverbase.go", "application/encoding.go", "application/server/server.go"],
 [("connection handling", "serverbase.go acceptClient"), ("request decoding", "encoding.go UnmarshalRequest"), ("dispatch", "server.go HandleRequests")],
 observe=["unix/TCP sockets", "ConiksServer.HandleRequests"])

prop("C26", "Requests are served only where the configuration permits them",
 "For every set of configured addresses, a registration takes effect only if it arrives at an address that allows registration; at any other address it is refused as malformed and leaves the directory unchanged. Lookups, past-epoch lookups and monitoring are served at every address with the same content, and all other request types are refused everywhere.",
 ["configurations", "inputs", "histories"], "all assignments of registration permission to addresses and all request types, known and unknown",
 "Tests use two fixed configurations.",
 ["application/server/server.go", "application/serverbase.go"],
 [("permission table", "server.go NewConiksServer"), ("permission check", "serverbase.go checkRequestType")],
 observe=["unix/TCP sockets"])

prop("C27", "Concurrent requests behave as if executed one at a time",
 "Under any interleaving of concurrent registrations, lookups, history requests and epoch updates, the responses are those of some sequential execution consistent with real time: at most one of several concurrent registrations of a name succeeds, and no response mixes data of two epochs. Every response's proof verifies against the signed root in that response, and there are no data races.",
 ["schedules", "histories"], "all interleavings of concurrent clients and epoch updates",
 "Server tests send one request at a time.",
 ["application/serverbase.go", "application/server/server.go", "protocol/directory/directory.go"],
 [("reader/writer locking around handlers", "serverbase.go acceptClient"), ("locked epoch update", "serverbase.go EpochUpdate"), ("locked reload", "serverbase.go HotReload")],
 observe=["unix sockets under the race detector"])

prop("C28", "A server keeps its epoch schedule, reloads safely and stops cleanly",
 "A running server issues one new epoch per configured deadline and none earlier, with consecutive epochs and all registrations of the ended epoch included; a server set up from the configuration its own tools generate follows the deadline it announces. A reload request applies the new policies from the configuration file at later epochs, and an unreadable or invalid file leaves policies and service unchanged. Shutting down answers requests already accepted, releases the listening addresses and lets no further epoch be issued.",
 ["schedules", "configurations", "fault_sequences"], "all deadlines, reload points, configuration states and shutdown points relative to running requests",
 "One test waits for one epoch, one reloads a missing file.",
 ["application/serverbase.go", "application/server/server.go", "application/server/config.go", "cli/coniksserver/internal/cmd/init.go"],
 [("epoch timer", "serverbase.go NewEpochTimer/EpochUpdate"), ("reload", "serverbase.go HotReload; server.go updatePolicies"), ("shutdown", "serverbase.go Shutdown/acceptRequests")],
 observe=["unix sockets", "SIGUSR2", "coniksserver command"])

prop("C29", "The registration bot forwards only the sender's own registration",
 "The bot forwards a message to the key server if and only if it is a registration request whose username is the authenticated sender's handle in the provider's namespace (compared case-insensitively); then it forwards the message byte for byte and returns the server's answer unchanged. Everything else, including other request types, other names, near-miss names and undecodable bytes, gets the malformed-message response without contacting the server, and an unreachable server gets the directory-error response.",
 ["inputs", "fault_sequences"], "all sender handles and messages, and a key server that is up, down or closes early",
 "Three literal messages are tested, none of which is forwarded.",
 ["application/bots/twitterbot.go", "application/bots/bot.go"],
 [("sender check", "twitterbot.go HandleRegistration"), ("forwarding", "bot.go SendRequestToCONIKS")],
 observe=["Bot.HandleRegistration", "unix socket of the key server"])

prop("C30", "Configurations and keys load back exactly, or fail with an error",
 "A server, client or bot configuration that was saved loads back with the same settings, with key, certificate, log and signed-root paths resolved next to the configuration file and keys read from them. Saving never overwrites an existing file. Missing, truncated, over-long, malformed or otherwise unusable configuration, key or signed-root files (including a signed root of a later epoch) are reported as errors and never crash the loader.",
 ["configurations", "inputs", "fault_sequences"], "all settings, file layouts and corruptions of the files involved",
 "No test loads or saves a configuration.",
 ["application/config.go", "application/config_encoding.go", "application/server/config.go", "application/client/config.go", "application/bots/config.go", "utils/utils.go"],
 [("TOML codec", "application/config_encoding.go"), ("key and STR loading", "application/config.go LoadSigningPubKey/LoadInitSTR; server/config.go Load"), ("no-clobber write", "utils/utils.go WriteFile")],
 observe=["server.Config", "client.Config", "bots.TwitterConfig", "SaveSTR/LoadInitSTR"])

prop("C31", "The key-value store behaves as an ordered map with atomic batches",
 "After any sequence of puts, deletes, batches, iterations, closes and reopens, the store returns for every key exactly the last value written and its not-found error otherwise; iterators visit exactly the live keys of their range in byte order in the state at their creation. A batch takes effect all at once and in the order of its operations, and resetting it empties it. A prefix range contains exactly the keys with that prefix.",
 ["histories", "inputs"], "all operation sequences over all keys and values, all prefixes including those ending in 0xff",
 "No test covers the storage package.",
 ["storage/kv/kv.go", "storage/kv/range.go", "storage/kv/leveldbkv/leveldbkv.go"],
 [("leveldb wrapper", "leveldbkv.go"), ("prefix ranges", "range.go IncrementKey/BytesPrefix")],
 observe=["kv.DB", "kv.Iterator", "kv.BytesPrefix"])

prop("C32", "Acknowledged writes survive any crash of the store",
 "Once a put, delete or batch write has returned, its effect is present after a crash at any later point, even one that loses everything not yet flushed to stable storage; a write cut off by the crash is present entirely or not at all, and reopening the store succeeds.",
 ["crash_points", "histories"], "all operation histories and every crash point in them, with loss of unsynced file contents",
 "No test covers the storage package, and a test process cannot lose its page cache.",
 ["storage/kv/kv.go", "storage/kv/leveldbkv/leveldbkv.go"],
 [("synchronous writes", "leveldbkv.go Put/Delete/Write with Sync")],
 observe=["kv.DB over a crash-simulating storage"])

prop("C33", "The command-line tools report outcomes truthfully",
 "The client tool reports a registration or a found key only when the corresponding checks passed, prints the key actually bound to the name, reports names as unregistered or already registered exactly when the directory proves it, and reports an error for every dishonest, malformed or missing answer without terminating. The server tool generates a complete usable setup without overwriting existing files, and the tools work together end to end from generated configurations.",
 ["histories", "configurations", "fault_sequences"], "all command sequences against honest and dishonest servers",
 "No test covers the command-line tools.",
 ["cli/coniksclient/internal/cmd/run.go", "cli/coniksserver/internal/cmd/init.go", "cli/coniksserver/internal/cmd/run.go", "cli/coniksclient/internal/cmd/init.go"],
 [("REPL", "coniksclient/internal/cmd/run.go"), ("setup generation", "coniksserver/internal/cmd/init.go")],
 observe=["coniksclient on a pseudo-terminal", "coniksserver process"])

prop("C34", "Answers and files reveal no other user's data and no private key",
 "What a directory answers about a name reveals nothing about any other user's binding except hashes that hide it behind fresh randomness: it contains no other name, key or commitment opening, and differs with other users' keys only in hashes and signatures. Every binding is committed with unpredictable randomness of its own, and random values that are sent out are never the raw output of the system's randomness source. Private keys appear in their own key files and nowhere else: not in answers, saved configurations, signed-root files or logs.",
 ["histories", "inputs", "configurations"], "all histories of all users and all pairs of keys that others could have registered",
 "Hiding relates two runs of a history; no test runs two or searches answers for what must not be there.",
 ["merkletree/merkletree.go", "crypto/util.go", "protocol/directory/directory.go", "protocol/message.go", "application/server/server.go", "application/config.go"],
 [("proofs of absence", "merkletree/merkletree.go Get"), ("commitments", "crypto/util.go NewCommit/MakeRand"), ("answers", "protocol/message.go")],
 observe=["directory answers on the wire", "files and log of a server"])

prop("C35", "Idle, slow and abandoned connections hold nothing up",
 "A connection whose client stays silent, stops in the middle, never ends its request, does not read the answer or vanishes is cut off after the server's connection time limit, while a slow request within the limit is answered. Meanwhile other clients are served and epochs go on, and afterwards the server is back to its idle use of goroutines and descriptors; even where connections use up all descriptors, every address is served again once they are gone. A shutdown with such connections open ends after the same limit and leaves nothing behind.",
 ["schedules", "fault_sequences", "inputs"], "all numbers and kinds of stalled connections, at any time",
 "The tests use well-behaved clients, one at a time.",
 ["application/serverbase.go"],
 [("connection handling", "application/serverbase.go acceptRequests/acceptClient"), ("shutdown", "application/serverbase.go Shutdown")],
 observe=["sockets of a running server", "goroutines and descriptors"])

prop("C36", "The log has every message once, in order, with level and context",
 "Every message logged at a level that the environment enables (debug and above in development, information and above in production) is appended exactly once, in order, with its level, text and context, to the configured file and to standard error; others are not. Entries of concurrent users stay whole, earlier entries of the file stay, and stack traces appear only where enabled. A panic-level message panics after it is logged, and a fatal one ends the program as failed after it is logged.",
 ["inputs", "histories", "schedules"], "all sequences of messages, contexts and configurations, and concurrent users",
 "The tests never read what is logged.",
 ["application/logger.go"],
 [("logger", "application/logger.go")],
 observe=["application.NewLogger", "log file", "standard error"])

prop("C37", "Every address is served exactly as configured, or not at all",
 "A server listens at exactly its configured addresses: at a TCP address it speaks only TLS, with the certificate configured for that address, and a request in the clear is neither answered by the directory nor has any effect there; a Unix socket is served at its own path. If any address cannot be served as configured (certificate or key missing, damaged or not belonging together, address in use, malformed or of an unknown kind) the server refuses to start, and whatever is in the way stays as it was.",
 ["configurations", "inputs"], "all address lists and the states of files and ports they refer to",
 "The tests start servers on one or two good addresses only.",
 ["application/serverbase.go", "application/server/server.go"],
 [("resolveAndListen", "application/serverbase.go"), ("Run", "application/server/server.go")],
 observe=["server.ConiksServer.Run", "listening sockets", "TLS handshakes", "responses"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
