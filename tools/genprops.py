import json,os
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [])))
p("C01","Log tree addressing is right at every size",
 "For every log size and every leaf, the log's node arithmetic agrees with the shape of a left-balanced Merkle tree: parent, child, sibling, root, copath and full-subtree enumeration are mutually consistent, and every node is addressed in exactly one stored chunk. No size up to 2^62 entries makes the arithmetic wrap, loop or panic.",
 ["inputs"],"all node ids / leaf ids / tree sizes as 64-bit values (bounded depth)",
 "math_test.go checks a handful of trees with at most 11 leaves; the chunk and level arithmetic only changes behaviour at power-of-two boundaries far beyond those.",
 ["tree/log/math/math.go","tree/log/chunk.go"],
 [("level/left/right/parent/sibling/root arithmetic","tree/log/math/math.go"),("chunk addressing","tree/log/math/math.go Chunk, tree/log/chunk.go")])
p("C02","Log inclusion and consistency proofs: complete and sound",
 "For every tree size, every set of requested leaves and every earlier tree size already known to the verifier, the proof the log produces verifies to exactly the current root (and the verifier's retained full subtrees are those of the current tree). A proof with a changed leaf value, a changed or missing or surplus hash, or against a different history never evaluates to the honest root.",
 ["inputs","histories"],"all tree sizes, leaf subsets, prior sizes within bounds; all leaf contents and all proof alterations, hash treated as collision free",
 "log_test.go checks random samples at one fixed step of a single history; it never tampers with a proof.",
 ["tree/log/log.go","tree/log/verify.go","tree/log/math/math.go"],
 [("GetBatch / Append","tree/log/log.go"),("Verifier Evaluate/Retain","tree/log/verify.go"),("math.BatchCopath / FullSubtrees","tree/log/math/math.go")])
p("C03","Log storage yields the Merkle root of everything appended",
 "After any sequence of appends, the root the log reports equals the Merkle tree hash of exactly the appended (timestamp/commitment) leaves in order, also when chunks are split at storage boundaries and when the log is reopened over the same store. Entries appended earlier never change.",
 ["inputs","histories"],"all leaf contents; all append sequences up to the bound, crossing chunk boundaries",
 "The tests compare the log with its own verifier, not with an independent definition of the tree, and use one concrete sequence.",
 ["tree/log/log.go","tree/log/chunk.go"],[("chunk parse/marshal","tree/log/chunk.go"),("Append","tree/log/log.go")])
p("C04","Prefix tree holds exactly what was put in it, at every version",
 "After any sequence of insertions and removals, looking up a label's VRF output in version n of the prefix tree finds it, with the commitment it was inserted with, exactly if it was inserted and not removed by version n; the proof returned verifies to the root committed for that version. The root depends only on the set of contents, never on the order or batching of the mutations.",
 ["inputs","histories"],"all VRF outputs and commitments; all mutation histories within bounds; all tile split outcomes",
 "prefix_test.go inserts random keys, whose common prefixes are almost always a few bits long and never exhibit adversarially shared prefixes together with tile splits and removals.",
 ["tree/prefix/prefix.go","tree/prefix/batch.go","tree/prefix/nodes.go","tree/prefix/proof.go"],
 [("Mutate/Search","tree/prefix/prefix.go"),("batch tile loading","tree/prefix/batch.go"),("tile splitting","tree/prefix/nodes.go")])
p("C05","Prefix tree proofs cannot be forged",
 "No prefix-tree search proof, however constructed, both evaluates to an honest tree's root and claims a different presence/absence result or a different commitment for a searched VRF output than that tree holds. Malformed proofs are rejected with an error.",
 ["inputs"],"all proof structures and contents up to the bound against all small trees; hash treated as collision free",
 "verify_test.go only feeds honest proofs plus a few hand-made variants.",
 ["tree/prefix/verify.go","tree/prefix/proof.go"],[("Evaluate","tree/prefix/verify.go"),("proof element checks","tree/prefix/verify.go addToSkeleton")])
p("C06","Mutation proofs let a verifier follow the prefix tree",
 "For every prefix tree version, every set of additions and eligible removals, the proof returned by the mutation evaluates to exactly the root before and the root after the mutation. A proof that evaluates to the honest root before it can only yield the honest root after.",
 ["inputs","histories"],"all contents, additions and removals within bounds",
 "The tests cover one or two mutations with random keys.",
 ["tree/prefix/verify.go","tree/prefix/prefix.go"],[("EvaluateBeforeAfter","tree/prefix/verify.go"),("Mutate proof output","tree/prefix/prefix.go")])
p("C07","Prefix tiles survive storage unchanged",
 "Serializing a prefix-tree tile and reading it back yields the same subtree (same hashes, same leaves, same external references), splitting an overweight tile loses nothing and keeps each tile within its size limit, and reading arbitrary bytes gives an error or a tile, never a panic.",
 ["inputs"],"all tile shapes within bounds with arbitrary contents; arbitrary byte strings up to the bound",
 "nodes_test.go has a few concrete tiles.",
 ["tree/prefix/nodes.go","tree/prefix/batch.go"],[("marshal/unmarshal","tree/prefix/nodes.go"),("split","tree/prefix/nodes.go")])
p("C08","Binary ladders decide versions correctly",
 "For every target version the search ladder consists of distinct versions, terminates, never overflows, and its in/exclusion answers suffice to decide how the greatest existing version compares with the target; interpreting the answers returns exactly that comparison for every consistent history and rejects inconsistent ones. Ladders requested with already-known results omit exactly what is implied.",
 ["inputs"],"all 32-bit versions and all greatest versions, all left/right knowledge",
 "ladders_test.go checks one or two literal ladders.",
 ["tree/transparency/math/ladders.go","tree/transparency/math/tracker.go","tree/transparency/algorithms/algorithms.go"],
 [("ladder generation","tree/transparency/math/ladders.go"),("interpretation","tree/transparency/math/ladders.go, tracker.go")])
p("C09","Search-tree navigation over the log is right at every size",
 "For every log size the implicit binary search tree has a unique root, each entry has well-defined left/right children inside the log, the frontier is the root followed by right children to the last entry, and bringing a view from size m to size n visits exactly the ancestors of the last known entry that lie to its right, and then the rest of the new frontier, so that every entry of the new frontier is either retained already or visited. None of these wraps, loops or panics for any 64-bit size.",
 ["inputs"],"all log sizes and positions as 64-bit values",
 "Only exercised indirectly on trees of a few dozen entries.",
 ["tree/transparency/math/math.go","tree/transparency/algorithms/update.go"],
 [("Root/Left/Right/Parent/Frontier/DirectPath","tree/transparency/math/math.go"),("UpdateView","tree/transparency/algorithms/update.go")])
p("C10","Distinguished log entries and view updates follow the deployment config",
 "For every sequence of non-decreasing timestamps and every reasonable-monitoring window and maximum lifetime, client and server agree on which log entries are distinguished and which are expired, per the specification's recursive definition. A view update whose timestamps decrease, or whose rightmost timestamp is too far from the current time, is rejected.",
 ["inputs","histories"],"all timestamp sequences up to the bounded log size, all windows",
 "algorithms_test.go and update_test.go use evenly spaced timestamps.",
 ["tree/transparency/algorithms/algorithms.go","tree/transparency/algorithms/update.go","tree/transparency/algorithms/data_provider.go"],
 [("rightmost/previous distinguished","tree/transparency/algorithms/algorithms.go"),("timestamp checks","tree/transparency/algorithms/data_provider.go"),("UpdateView","tree/transparency/algorithms/update.go")])
p("C11","Label searches find the true version, for every history",
 "For every history of a label, a greatest-version search terminates at the version that is greatest in the last log entry, and a fixed-version search terminates at a log entry where the version is the greatest or, if there is none, at the first (unexpired) log entry containing it, and reports it absent or expired exactly if it is; with the producer and the verifier visiting the same entries in the same order. A label history that contradicts itself is rejected by the verifier.",
 ["inputs","histories"],"all monotone label histories over logs up to the bounded size, all timestamps, all target versions",
 "search_test.go samples random histories.",
 ["tree/transparency/algorithms/search.go","tree/transparency/algorithms/proof_handle.go"],
 [("GreatestVersionSearch / FixedVersionSearch","tree/transparency/algorithms/search.go"),("ladder verification","tree/transparency/algorithms/proof_handle.go")])
p("C12","A client accepts every honest server response",
 "In every deployment mode, for every history of label insertions and every client state reached by honest interaction, the response the server produces to a search, update or monitor request is accepted by the client, returns the value actually stored for the label version asked for, and advances the client's state to the server's tree.",
 ["inputs","histories","configurations"],"all bounded histories of label insertions interleaved with client queries; all value bytes; all modes",
 "transparency_test.go runs a few fixed sequences in one mode and mostly checks for absence of errors.",
 ["tree/transparency/client.go","tree/transparency/client_crypto.go","tree/transparency/transparency.go","tree/transparency/monitor.go"],
 [("response construction","tree/transparency/transparency.go"),("response verification","tree/transparency/client.go, client_crypto.go")])
p("C13","Clients never roll back, fork or accept unverifiable responses",
 "A client that holds a verified tree head never accepts a response for a smaller tree, for a tree inconsistent with the one it holds, or with an invalid or missing signature or auditor signature, with an auditor head that is too old, or with a value that its service operator has not signed where that is required, and never accepts a value whose commitment is not the one proven (new versions in an entry that is already distinguished are proven by the owner's next monitoring instead, which then fails); on rejection its state is unchanged.",
 ["inputs","histories"],"all alterations of the response fields within bounds, all earlier states",
 "The tests never present a hostile response.",
 ["tree/transparency/client.go","tree/transparency/client_crypto.go","tree/transparency/algorithms/proof_handle.go"],
 [("tree head verification","tree/transparency/client_crypto.go"),("commitment check","tree/transparency/client.go")])
p("C14","Every wire and state structure survives encode/decode",
 "Every message, tree head, proof and persisted state structure, in every optional-field combination and deployment mode, decodes from its own encoding to an equal value with no bytes left over; index and state encodings used for storage do so too.",
 ["inputs","configurations"],"all field values with bounded list lengths, all option combinations and modes",
 "There are almost no codec tests; optional fields and mode-dependent fields are unexercised.",
 ["tree/transparency/structs/*.go","tree/prefix/proof.go","tree/log/verify.go","tree/transparency/auditor/state.go"],
 [("Marshal/New* pairs","tree/transparency/structs"),("proof marshal","tree/prefix/proof.go")])
p("C15","Decoders survive arbitrary bytes",
 "Decoding arbitrary bytes as any message, proof, tile or state structure terminates with a value or an error: it never panics, never reads past the input, and never allocates memory out of proportion to the input. A decoded value re-encodes to the bytes consumed.",
 ["inputs"],"all byte strings up to the bound, all modes",
 "Tests only decode what they themselves encoded.",
 ["tree/transparency/structs/*.go","tree/prefix/proof.go","tree/prefix/nodes.go","tree/log/chunk.go"],
 [("length-prefixed readers","tree/transparency/structs/structs.go")])
p("C16","The auditor signs only append-only, well-formed evolutions",
 "An auditor advances its state only for updates whose prefix proof starts from the root it last committed to, whose timestamps do not decrease, and which remove only entries that are eligible for removal; then its log root equals the root of the true log. Its persisted state restores to behaviour identical to an auditor that never stopped, and a rejected update leaves it unchanged.",
 ["inputs","histories"],"all sequences of honest and altered updates within bounds",
 "auditor_test.go processes one honest history.",
 ["tree/transparency/auditor/auditor.go","tree/transparency/auditor/state.go"],
 [("Process/updateState","tree/transparency/auditor/auditor.go"),("state Marshal/Unmarshal","tree/transparency/auditor/state.go")])
p("C17","Monitoring detects hidden or removed versions",
 "For every label history, contact monitoring of a version observed at one log entry succeeds against an honest log and fails if, in a distinguished entry to the right of it, that version is missing; label owners likewise detect every unexpected newer version and every missing own version. Afterwards the retained monitoring state covers exactly what still needs watching.",
 ["inputs","histories"],"all bounded histories, honest and hostile, all monitoring start positions",
 "monitor_test.go uses a few fixed histories, none hostile.",
 ["tree/transparency/algorithms/monitor.go","tree/transparency/monitor.go","tree/transparency/client.go"],
 [("ContactMonitor/OwnerMonitor","tree/transparency/algorithms/monitor.go")])
p("C18","A crash during commit leaves the store consistent",
 "Whatever point a crash interrupts a mutation or commit at, reopening the store shows either the whole update (tree head, log, prefix tiles, indices, versions) or none of it, and the tree can be served and mutated further correctly.",
 ["crash_points","histories"],"every crash point between storage operations of a bounded update sequence",
 "No test interrupts a commit.",
 ["db/leveldb.go","db/memory/memory.go","tree/transparency/mutate.go"],
 [("batched Commit","db/leveldb.go"),("Mutate","tree/transparency/mutate.go")])
p("C19","Label version indices are exact",
 "After any sequence of additions and removals of label versions, the stored index of a label lists exactly the log entries at which each version was added, in order, and the greatest version reported for a label is the number of additions minus one.",
 ["inputs","histories"],"all positions as 64-bit values, bounded number of versions and labels",
 "mutate_test.go uses small fixed positions.",
 ["tree/transparency/mutate.go","tree/transparency/transparency.go","tree/transparency/managed/managed.go","db/memory/memory.go"],
 [("index encoding","tree/transparency"),("version counter","tree/transparency/managed/managed.go")])
p("C20","The server survives arbitrary requests",
 "Any search, monitor, distinguished or update request with arbitrary field values yields a response or an error: the server never panics, hangs or corrupts its state, for every tree state.",
 ["inputs","histories"],"all request field values, bounded tree states",
 "Tests only issue requests built by the honest client.",
 ["tree/transparency/transparency.go","tree/transparency/monitor.go","cmd/katie-server/handler.go"],
 [("request validation","tree/transparency/transparency.go")])
p("C21","A failed mutation leaves no trace",
 "If a batch of label updates is rejected for any reason, the tree afterwards serves the same answers as before and accepts the next valid batch; if accepted, every added version is searchable, every removed one is gone, and a removal is accepted only if the version is old enough to be expired.",
 ["inputs","histories","fault_sequences"],"all bounded batches of additions/removals, all failures of individual storage operations",
 "mutate_test.go applies only valid batches.",
 ["tree/transparency/mutate.go"],[("Mutate validation and writes","tree/transparency/mutate.go")])
p("C22","Signed, committed and VRF-input encodings are injective",
 "Two different tree heads, configurations, update values, (label, version) pairs or committed (label, value, opening) triples never produce the same signed or hashed byte string.",
 ["inputs"],"all pairs of field values with bounded lengths",
 "No test compares two inputs; a collision needs specific length combinations.",
 ["tree/transparency/structs/crypto.go","tree/transparency/crypto.go","crypto/commitments/commitments.go"],
 [("to-be-signed encodings","tree/transparency/structs/crypto.go"),("commitment","crypto/commitments/commitments.go")])
p("C23","VRF proofs are complete, unique and verifiable",
 "For every key pair and input, the VRF proof and output computed with the private key are those of RFC 9381 and the proof verifies to the same output under the public key; verification accepts exactly the proofs that RFC 9381 accepts and derives the output that it prescribes, so that no other output can be proven for that key and input; malformed keys and proofs are refused without a panic.",
 ["inputs"],"all keys and inputs",
 "The tests use a few vectors; retries, leading zeros, non-canonical encodings and points of small order need inputs that they do not have.",
 ["crypto/vrf/p256/p256.go","crypto/vrf/edwards25519/edwards25519.go"],
 [("Prove/Verify","crypto/vrf")])
p("C24","Concurrent requests and insertions never interfere",
 "However reads, updates and background insertions are scheduled, each read is answered from one committed tree that was current during the request, such that the client accepts it, and each accepted update is applied exactly once, in some order, and answered with proofs that its owner accepts.",
 ["schedules"],"all interleavings of server goroutines",
 "Tests are single-threaded.",
 ["tree/transparency/update.go","tree/transparency/transparency.go","tree/transparency/crypto.go","db/leveldb.go"],
 [("updater goroutine and channels","tree/transparency/update.go")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
