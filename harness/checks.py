# What each check runs and how its evidence is to be read.  tools/gen_manifest.py
# writes MANIFEST.json from this table.
PKGS = {
    "vh": dict(dir="zzverif/vh"),
    "ref": dict(dir="zzverif/ref"),
    "basic": dict(dir="zzverif/basic"),
    "edw": dict(dir="crypto/zzverif/edw"),
    "merkletree": dict(dir="merkletree", shim=True),
}
CHECKS = {}


def check(pid, pkgs, oracle, rule, note, level="exploration", assumptions=(), **kw):
    CHECKS[pid] = dict(pkgs=pkgs, oracle=oracle, rule=rule, note=note, level=level,
                       assumptions=list(assumptions), **kw)


HASH = "SHAKE128/SHAKE256 and Ed25519 of golang.org/x/crypto and the standard library are correct and collision-free"

check("C01", ["basic"], "validity predicate over generated openings and their alterations",
      "Random lists of byte strings (boundary lengths, patterns), an honest commitment to them, and one generated alteration of data, salt or value, "
      "including moving bytes across the salt/data boundary; non-trivial: the committed data or the alteration is not empty.",
      "Every alteration must be refused, hashes must equal an independent SHAKE128, inputs sit in guarded arrays. "
      "Binding is only as strong as the hash: collisions are not searched for.", assumptions=[HASH])
check("C02", ["basic"], "differential against crypto/ed25519, rejection of generated alterations",
      "Random keys and messages; altered message, signature (bit flips, S+L, lengths), key; failing and short randomness readers. Every case is non-trivial.",
      "Forgeries beyond alteration of honest signatures are out of reach of generation.", assumptions=[HASH])
check("C03", ["basic"], "independent big-integer implementation of the VRF",
      "Random keys, names of boundary lengths and contents (Complete: both ways of computing, verification; Definition: against the reference arithmetic). Every case is non-trivial.",
      "The reference is written with math/big from the construction, sharing no code with the project.", assumptions=[HASH])
check("C04", ["basic"], "uniqueness predicate: a value that verifies is the name's own value",
      "Altered honest proofs (bits, lengths, other name/value/key), proofs built by a prover who knows the key with small-order components "
      "and chosen nonces, non-canonical and small-order keys and elements, arbitrary bytes of the right lengths. Non-trivial: the proof has the right lengths.",
      "The adversary is generated from known attack classes on this construction; it is not a proof of uniqueness.", assumptions=[HASH])
check("C05", ["edw"], "independent big-integer Edwards25519 arithmetic",
      "Field elements with limbs up to the documented bounds, scalars and points including boundary, unreduced, non-canonical and small-order ones. "
      "Non-trivial: every case, for Decoding those that decode, for Curve25519 keys those with a representative.",
      "Compares each exported routine with math/big; limb bounds are those the code documents.", assumptions=["math/big is correct"])
check("C06", ["basic"], "inverse functions and direct definitions; a model of the written files",
      "Byte strings, bit strings of any length, integers (boundaries and random), paths, write histories in a scratch directory. "
      "Non-trivial: a non-empty string, a relative path, a write to an existing name.",
      "Direct comparison with the definitions.")
check("C07", ["merkletree"], "model map, reference tree root and path of the set of entries",
      "Histories of insertions, updates, lookups over trees with chosen indices (1 to 32 bytes, long common prefixes) and over the dictionary with "
      "names whose indices share up to 41 bits. Non-trivial: at least two entries (and two epochs).",
      "The tree-level part needs the unexported root (build tag vhshim); where internals are renamed only the dictionary-level part runs.",
      assumptions=[HASH])
check("C08", ["merkletree"], "at most one answer verifies per (root, name)",
      "A forger that builds trees, roots and paths of its own choice (field lengths, levels, re-split hash inputs, boundary-shifted nonces) and alterations and recombinations of "
      "honest proofs; pairs of contradicting answers are searched under one root. Non-trivial: a root that authenticates at least two bindings or has an unusual nonce.",
      "Search over structural forgeries; hash collisions are assumed away.", assumptions=[HASH])
check("C09", ["merkletree"], "frozen copies of everything obtained from a snapshot, compared at the end",
      "Histories of insertions, updates, snapshots, clones and reads; caller modifies values it passed in. Non-trivial: at least one clone or two epochs with later insertions.",
      "Compares the full JSON image of roots and proofs. The clone part needs unexported names (build tag vhshim).")
check("C10", ["merkletree", "proto"], "chain predicate and reference serialization",
      "Update histories with arbitrary associated data, all pairs of roots of two histories with the same keys, generated alterations of every signed field; "
      "directory histories with policy changes and alterations of every policy field. Non-trivial: at least two epochs.",
      "Length-ambiguous re-splits between adjacent variable-length fields are not asserted.", assumptions=[HASH])
check("C11", ["merkletree"], "model of all epochs; retention predicate",
      "Histories over all capacities 2..13, lookups and roots of every epoch after every step. Non-trivial: something was evicted.",
      "Capacities 0 and 1 cannot hold two snapshots and are left out.")
check("C12", ["merkletree", "proto"], "model in which failed operations did not happen",
      "A randomness source that fails or falls short at a generated read, at each read of creation, insertion, registration and update in a history. "
      "Non-trivial: a read actually failed.",
      "Faults are injected at crypto/rand.Reader, the only source the code uses.", level="fault_enumeration")
PKGS["mt"] = dict(dir="zzverif/mt")
PKGS["world"] = dict(dir="zzverif/world")
PKGS["proto"] = dict(dir="zzverif/proto")
check("C13", ["proto"], "reference directory model and the definition of the tree",
      "Histories of up to 25 registrations, lookups, updates and past-epoch requests over pools of 2 to 9 names (some with indices sharing up to 41 bits), "
      "empty names and keys included, and directories of up to 160 names. Non-trivial: registrations, lookups and at least one update.",
      "Every answer is compared with a model, every proof decided twice: by the project's verifier and from the definition of the tree.", assumptions=[HASH])
check("C14", ["proto"], "reference directory model; every promise followed up to the end of the history",
      "Histories with many registrations of few names, competing and repeated ones. Non-trivial: a promise, a registration of a taken name and two epochs.",
      "Promises are checked for signature, content, repetition and inclusion in every later snapshot kept.", assumptions=[HASH])
check("C15", ["proto"], "reference directory model per epoch; retention predicate",
      "Histories of up to 90 epochs, capacities 2..9, requested epochs around the existing ones and at the extremes of uint64. "
      "Non-trivial: at least one range request and two epochs.",
      "For epochs that may or may not be evicted either answer is accepted, but an evicted epoch must stay so.", assumptions=[HASH])
check("C16", ["proto"], "reference model of the announced policies",
      "Interleavings of policy changes (any 64-bit deadline), updates and requests. Non-trivial: a change and two epochs.",
      "All signed roots issued so far are compared with the model after every step.", assumptions=[HASH])
check("C17", ["proto"], "acceptance predicate written from the definition of the chain",
      "Lists cut from the honest chain of a directory, from forks of it (by the holder of its key or another), with dropped, swapped, repeated, replaced, "
      "altered (and re-signed) and missing entries, in memory or as sent over the wire; the auditor advances after accepted lists. "
      "Non-trivial: at least one list accepted and one refused.",
      "The verdict must equal the predicate and a refusal must name one of the list's faults.", assumptions=[HASH])
check("C18", ["proto"], "model of the log",
      "Up to 20 initialisations, audits (lists as in C17, error codes, other messages) and range requests over up to three directories; the whole log is read back after every step. "
      "Non-trivial: an audit accepted and one refused.",
      "Initialisation from honest saved histories only; the code documents that it does not verify them again.", assumptions=[HASH])
check("C19", ["proto"], "reference directory model and reference client state",
      "Histories of up to 25 registrations, lookups, policy changes and updates by up to four clients that join at any epoch, in memory or over the wire. "
      "Non-trivial: two epochs and a known binding.",
      "A registration that another client won with another key is documented to be reported as differing bindings.", assumptions=[HASH])
check("C20", ["proto"], "justification predicate for answers, written from the definitions",
      "Honest answers altered in up to four places or recombined with parts of earlier answers and of another directory; and answers put together by a holder of the "
      "directory's signing key from trees, roots, indices and promises of its choice, over several epochs. Non-trivial: at least one answer refused (and, for the second, one accepted).",
      "Every accepted answer must be justified; every refusal must name one of the answer's faults; pinned root, bindings and promises are compared with a model afterwards. "
      "Forging signatures or hashes is out of reach.", assumptions=[HASH])
check("C21", ["proto"], "equivocation predicate from the definition of the chain; twin directories",
      "Ranges from honest, forked, foreign and altered chains against any pinned root (Lists); and two directories with the same keys that agree up to a generated fork point, "
      "one followed by a client, the other by an auditor with its log (Twins). Non-trivial: a range passed and one refused; a client beyond epoch 0.",
      "Ranges that end neither at the client's epoch nor at the next are reported as inconsistent by definition of the check.", assumptions=[HASH])
check("C22", ["proto"], "promise bookkeeping written from the definition",
      "Histories in which a directory that signs correctly drops, replaces, postpones or denies promises or changes its VRF key, at any epoch; and honest histories. "
      "Non-trivial: a promise was broken or kept.",
      "When another check fails first, its error is accepted in place of the broken-promise error.", assumptions=[HASH])
check("C23", ["proto"], "round trips compared field by field; the same checks before and after",
      "All request types with any text as name, any key and epochs; all answers of directory and audit-log histories, all error codes; initial signed roots through files. "
      "Non-trivial: every request; at least three answers.",
      "Names are text: JSON carries no invalid UTF-8.", assumptions=["encoding/json is correct"])
check("C24", ["proto"], "no-crash oracle plus the justification predicate on whatever was decoded",
      "Structural mutations (removal, null, repetition, truncation, renaming, swapping, scalars, grafts) of honest answers and audited ranges, cut-off and arbitrary bytes, deep nesting, "
      "for a client with pinned roots, bindings and promises; also decoded as other kinds of answers. Non-trivial: a mutant was refused.",
      "Accepted mutants must be justified, refusals must name a fault, state is compared with a model.", assumptions=[HASH])

PKGS["app"] = dict(dir="zzverif/app")
check("C25", ["app"], "reference decoding and reference directory model behind a real server",
      "Messages to servers on unix sockets and TLS: requests of all types, mutated (structure, text, bytes), cut off, padded to and over the 8192-byte limit, in pieces, "
      "with abandoned connections in between. Non-trivial: at least one message refused and one request served.",
      "Irregular messages that lenient decoders can take for a request (repeated, missing or renamed members) may be served or refused, but only as the request they say. "
      "Over-limit messages are sent on unix sockets only, where the answer cannot be lost to a connection reset.", assumptions=[HASH])
check("C26", ["app"], "reference directory model with the permissions of each address",
      "Servers with one to five addresses of both kinds and any registration permissions, from memory or from a configuration file; requests of served and other types at any of them. "
      "Non-trivial: a registration succeeded and one was barred.",
      "Reads are repeated at every address and compared.", assumptions=[HASH])
PKGS["apprace"] = dict(src="app", dir="zzverif/app", race=True)
check("C27", ["apprace"], "linearizability against a sequential reference directory; the race detector",
      "Two to six clients with up to nine requests each to a real server on two addresses, with epochs of 2 to 40 ms or none ending meanwhile; all proofs, signed roots and promises verified. "
      "Non-trivial: requests overlapped and competed for a name.",
      "Schedules are those the Go runtime and the kernel produce under load, with the race detector on; they are sampled, not enumerated.", assumptions=[HASH])
check("C28", ["app"], "real servers and clocks: lower bounds on every epoch, retried upper bounds; model of announced deadlines",
      "Servers with epochs of 5 to 80 ms and of 1 to 2 s; registrations at any time; reloads by SIGUSR2 of usable and unusable files; shutdowns with requests half sent. "
      "Non-trivial: every schedule; a usable and an unusable reload; at least one open request.",
      "Short epochs rely on the wrap-around of seconds in timer durations and are left out where it is gone. Upper bounds are tried three times, since a loaded machine delays epochs.",
      assumptions=[HASH, "the monotonic clock"])
check("C29", ["app"], "reference decoding and comparison of names; recorded traffic of a stand-in key server and provider",
      "Senders and registrations for their own, near-miss and other names, other types, mutated messages, long keys, repeated members; any answer of the key server, or none (Messages); "
      "direct messages through the bot's stream (Messenger). Non-trivial: one message forwarded and one refused; at least one reply.",
      "Names that differ in letters outside ASCII which fold together are not decided. The provider's HTTP interface is replaced at http.DefaultTransport.")
check("C30", ["app"], "round trips compared setting by setting; an independent TOML reading of damaged files",
      "Server, client and bot configurations with any text and numbers, files next to them or elsewhere, named absolutely or relatively, loaded where they were saved and elsewhere; servers made from them; "
      "each file involved missing, cut off, longer, changed or replaced; mutated signed roots of any epoch. Non-trivial: a configuration that loaded; a damage that was noticed.",
      "Settings that TOML cannot carry (control characters, numbers beyond 63 bits) may be refused, but not changed. Keys have no inner structure a loader could check but their size.",
      assumptions=["github.com/BurntSushi/toml decodes TOML correctly"])

PKGS["kvt"] = dict(dir="zzverif/kvt", leveldb_hook=True)
check("C31", ["kvt"], "model map; the prefix relation; snapshots of concurrent batches",
      "Histories of puts, deletes, batches built and written in any order and again, iterators kept open and moved, closes and reopens, over few keys that are prefixes and neighbours of each other "
      "(0x00, 0xff), on disk and in memory, with default and with small buffers; prefixes and keys around their ranges; concurrent writers and readers. "
      "Non-trivial: at least two writes; a non-empty prefix.",
      "Batches over 4 MiB are left to C32. Ranges whose limit lies before their start, and empty limits other than nil, are not drawn.")
check("C32", ["kvt"], "model of the acknowledged writes, over a storage that loses what was not flushed",
      "Histories of puts, deletes and batches by one to four writers, up to three crashes one after another, with every storage operation a crash point; all that is unflushed lost, "
      "or cut anywhere, zeroed or garbage; small buffers (rotated journals, compactions) or the defaults. Non-trivial: at least two writes.",
      "A crash is simulated below goleveldb's storage interface (a copy of goleveldb with a hook in storage.OpenFile): file contents up to the last sync are kept, "
      "creations and removals before it are durable, replacing CURRENT is atomic.", assumptions=["goleveldb's own storage flushes when asked to"])

PKGS["appcli"] = dict(src="app", dir="zzverif/app", tools={t: "./cli/" + t for t in ("coniksserver", "coniksclient", "coniksbot")})
check("C33", ["appcli"], "reference client and directory beside the tools on a pseudo-terminal; models of the generated files",
      "Command sequences typed to the client tool in front of a stand-in server that answers honestly, with alterations, another key, another name's or an old answer, mangled or no answer; "
      "unusable setups; init in directories with any of the files there; all tools together from generated setups with real epochs. "
      "Non-trivial: both good and bad answers (Client), files that were there (Init), a name registered (EndToEnd).",
      "Names and keys are printable. Servers that never answer are left out, and answers over 8192 bytes, which the client tool cuts off (a known finding), come only from an honest server.", assumptions=[HASH])

check("C34", ["proto", "app"], "noninterference between three runs of a history: others' keys changed, randomness changed; search for secrets",
      "Histories of registrations, updates and all kinds of requests in three directories with the same keys: in the second other users register other keys (of other lengths), in the third the randomness differs. "
      "Answers about a name may differ only in hashes and signatures, which must also change with the randomness; no answer, signed-root file, saved configuration or log contains another's key or name, "
      "a private key, or plain hashes of them; salts and nonces never repeat. Non-trivial: others registered and some answer depends on them.",
      "Sizes and shapes of answers are compared, their timing is not. That the VRF hides names is assumed.", assumptions=[HASH])
check("C35", ["app"], "time limits, counts of goroutines and descriptors, other clients served meanwhile",
      "Up to 120 connections at once to a real server on unix sockets and TLS that stay silent, stop in the middle of a request or of the TLS handshake, send a byte now and then, never end their request, "
      "vanish, or are slow but in time; lookups at every address and epochs going on meanwhile, then the idle state again, or a shutdown in the middle. Descriptors: as many connections as it takes for the process to run out of descriptors, which are then freed, and every address must be served. Non-trivial: at least two kinds of connection; a connection failed for lack of descriptors.",
      "Upper bounds are generous (25 to 30 s where the server allows 5 s), so a slowdown below them is not noticed.", assumptions=["the monotonic clock"])
check("C36", ["app"], "model of the entries, read back from the log file and standard error",
      "Sequences of messages at all levels with any context, in both environments, with and without stack traces, over several runs that log to the same file (which may exist); concurrent users; "
      "a fatal message in a process of its own. Non-trivial: at least one entry.",
      "Messages have no tabs or line ends, as the format does not quote them. Time stamps and source positions are not compared.")
check("C37", ["app"], "the listening addresses, the certificates shown, and the effect of requests, observed from outside",
      "Servers with one to four addresses, Unix sockets and TCP with one of three certificates, of which one may be unusable: a path or port in use, no directory, missing, cut, foreign or swapped "
      "certificate and key files, other schemes and malformed addresses. Non-trivial: an unusable address, or several addresses of which one allows registrations.",
      "TCP addresses are on the loopback interface; that an address is not served elsewhere is checked at one other loopback address.")

# Large inputs and long histories, which each check adds to the above.
SIZES = {
    "C01": "Large: up to thousands of parts and 400000 bytes",
    "C02": "Large: messages of up to 400000 bytes",
    "C03": "Large: names of up to 200000 bytes",
    "C07": "LargeTree: up to 3000 entries, values up to tens of thousands of bytes",
    "C10": "Long: up to 900 epochs; VeryLong: 66000 epochs; HighEpoch: 1 to 12 epochs after one drawn from the whole 64-bit range",
    "C11": "Long: capacities up to 700",
    "C13": "Large: names and keys of up to 150000 bytes; Crowd: up to 400 names",
    "C14": "Crowd: up to 600 registrations in one epoch, long names and keys",
    "C15": "Long: capacities up to 500 and ranges over all kept epochs",
    "C16": "Long: up to 700 epochs",
    "C17": "Long: chains of up to 400 epochs; Epochs: chains that begin at any 64-bit epoch",
    "C18": "Long: chains of up to 300 epochs; Many: up to 60 directories",
    "C19": "Long: up to 200 names, 100 epochs, long names and keys",
    "C20": "chains begin at any 64-bit epoch",
    "C21": "Long: chains of up to 400 epochs; LongTwins: up to 300 epochs",
    "C22": "Crowd: up to 200 open promises; chains begin at any 64-bit epoch",
    "C25": "Marathon: up to 1500 requests to one server",
    "C31": "Large: thousands of keys, values and batches of up to megabytes",
    "C32": "Large: batches beyond goleveldb's transaction threshold of 4 MiB",
}
for _pid, _t in SIZES.items():
    CHECKS[_pid]["rule"] += " " + _t + "."
