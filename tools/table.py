# ---------------------------------------------------------------- cryptographic layer
prop("C01","A signed message is accepted only if its signer signed exactly that payload",
 "A value signed by a key verifies, and keeps verifying after any encode/decode round trip. Any other combination of payload, claimed signer and signature (a changed payload, a signature by another key, a swapped issuer, flipped signature bits) fails verification, and no accepted signed message can be altered in transit into a different message that is still accepted. Equality and content addresses of accepted signed values agree with this: two accepted signed values with different payload, issuer or signature never count as the same.",
 ["inputs"],"all payloads, keys and byte-level alterations of the wire form",
 "Tests sign one fixed payload; forgery resistance is a claim about every mutation of every field.",
 [CR+"signed.rs",CR+"signer/sync_signer.rs",CR+"signer/memory.rs",CR+"verifiable.rs"],
 [("sign and verify over the canonical encoding",CR+"signed.rs try_verify"),("signing entry point",CR+"signer/sync_signer.rs try_sign_basic_sync")],
 [("Signed","payload, issuer, signature","keyhive_crypto/src/signed.rs")],
 ["Signed::try_verify","bincode round trip of Signed"],
 tech="generated payloads and keys, exhaustive field swaps and random byte mutations of the wire form, checked against an independent ed25519 verification", note="Randomised forgery attempts by mutation, not cryptanalysis.")
prop("C02","Sealed data opens only with the right key and unmodified",
 "For every key, plaintext and context, encrypting and then decrypting with the same key gives back the plaintext; two parties derive the same shared key from each other's public key. Decrypting with any other key, a changed nonce, a changed or truncated ciphertext returns an error and never a wrong plaintext. The nonce of content encryption is determined by key, plaintext and document, so different plaintexts or documents never share one.",
 ["inputs"],"all keys, plaintexts (including empty and large), documents and alterations of the ciphertext",
 "Tests round-trip a couple of fixed strings; tamper rejection must hold at every byte position.",
 [CR+"symmetric_key.rs",CR+"siv.rs",CR+"share_key.rs",BK+"encrypted.rs"],
 [("AEAD sealing",CR+"symmetric_key.rs try_encrypt/try_decrypt"),("synthetic nonce",CR+"siv.rs"),("key agreement",CR+"share_key.rs derive_symmetric_key")],
 [("SymmetricKey / Siv / ShareSecretKey","key material","keyhive_crypto/src")],
 ["SymmetricKey::try_decrypt","EncryptedSecret::try_encrypt / try_decrypt","ShareSecretKey::derive_symmetric_key"],
 tech="round trips over generated keys and plaintexts; metamorphic tamper rejection at generated positions; nonce oracle recomputed independently", note="Confidentiality itself is not testable; only functional correctness, tamper rejection and key separation are.")
prop("C03","Wire and storage formats round-trip, and bad bytes are rejected cleanly",
 "Every message and archive the system produces decodes back to an equal value with the same content address, and encoding is deterministic, so replicas agree on addresses. Decoding arbitrary or corrupted bytes returns an error or some value but never panics, hangs, or exhausts memory. A value decoded from corrupted bytes, handed to a peer as a received event, is either rejected or was not altered in meaning.",
 ["inputs"],"all events, archives, encrypted contents and keys produced by generated histories, and all byte mutations of their encodings",
 "Wire compatibility over all shapes of values and robustness against all corruptions cannot be sampled by a few fixed fixtures.",
 [KC+"event/static_event.rs",KC+"archive.rs",BK+"operation.rs",CR+"digest.rs",BK+"encrypted.rs"],
 [("serde/bincode encodings",KC+"event/static_event.rs"),("content addresses",CR+"digest.rs")],
 [("StaticEvent / Archive / EncryptedContent","wire values","keyhive_core/src/event/static_event.rs")],
 ["bincode::serialize / deserialize of StaticEvent, Archive, EncryptedContent, ContactCard","ingest_unsorted_static_events"],
 tech="round-trip of values taken from generated histories; structure-aware byte mutation with a no-panic and no-silent-acceptance oracle", note="")
# ---------------------------------------------------------------- group key agreement
prop("C04","Members that saw the same group-key operations derive the same keys",
 "In any group-key history of concurrent adds, removes and updates, delivered in any causally admissible order, all replicas end with the same membership, tree and operation set, and every current member derives the same group key. Content encrypted by a member after an operation can be decrypted by every other member that has seen the same operations and was a member then. No admissible delivery order makes a replica fail, panic or diverge.",
 ["histories","schedules"],"all histories of adds, removes, updates and encryptions by several members, and all causal delivery orders",
 "Concurrent tree merges have far more interleavings than the handful of scripted scenarios.",
 [BK+"cgka.rs",BK+"tree.rs",BK+"keys.rs",BK+"secret_store.rs",BK+"treemath.rs"],
 [("merge of concurrent operations",BK+"cgka.rs merge_concurrent_operation"),("tree path encryption",BK+"tree.rs encrypt_path"),("conflict keys",BK+"keys.rs NodeKey::merge")],
 [("BeeKem tree","leaf and inner node keys and secrets",BK+"tree.rs"),("CgkaOperationGraph","operations and heads",BK+"operation.rs")],
 ["Cgka::new_app_secret_for / decryption_key_for","Cgka::merge_concurrent_operation","Cgka::ops, has_pcs_key"],
 tech="stateful multi-replica simulation with generated histories and causal delivery orders; convergence and agreement oracle across replicas", note="Up to about 8 members and 40 operations per history.")
prop("C05","A removed member cannot derive any later group key",
 "Once a member has been removed and a current member that saw the removal produces a new group key, nothing the removed member holds (all its secrets, all the operations ever published) lets it derive that key or decrypt content encrypted under it. The same holds for somebody who was never added and for members that were removed concurrently with other changes. Re-adding a member restores access only to keys made after it is added again.",
 ["histories","schedules"],"all histories with removals, including concurrent ones, and all delivery orders to remaining and removed members",
 "Leaks appear only in particular concurrent tree shapes (orphan leaves, stale paths), not in linear test scenarios.",
 [BK+"cgka.rs",BK+"tree.rs",BK+"secret_store.rs"],
 [("removal blanks paths",BK+"tree.rs remove_id / blank_path"),("path encryption to the sibling resolution",BK+"tree.rs encrypt_path")],
 [("BeeKem tree","which public keys each secret is sealed to",BK+"tree.rs")],
 ["Cgka::decryption_key_for on the removed member's replica with every operation and every secret it owns"],
 tech="stateful simulation with an attacker replica that keeps all its secrets and receives all operations; negative decryption oracle", note="The attacker runs the protocol's own decryption on everything it may know, plus forced replays; it is not a symbolic adversary.")
prop("C06","Every encryption under a group key can be opened by members, no key is reused",
 "For any content reference, predecessors and content, a member derives the content key from exactly the group-key state the ciphertext names, also long after later updates, as long as it was a member then. Keys of different references, predecessors or group-key states differ, and no two different contents are sealed with the same key and nonce. Old ciphertexts stay readable across later adds, removes and updates by those who were members when they were made.",
 ["histories","inputs"],"all histories and all ciphertexts made at any point of them",
 "Old-key recovery depends on the whole later history, which tests sample at one point.",
 [BK+"cgka.rs",BK+"pcs_key.rs",BK+"encrypted.rs"],
 [("application secret derivation",BK+"pcs_key.rs derive_application_secret"),("key recovery by replay",BK+"cgka.rs decryption_key_for")],
 [("pcs_key_ops","which operation made which group key",BK+"cgka.rs")],
 ["Cgka::new_app_secret_for, decryption_key_for"],
 tech="stateful simulation; every old ciphertext is re-opened by every entitled replica at generated later points; key-distinctness oracle", note="")
prop("C07","Group-key operations replay in a causal, complete, replica-independent order",
 "For any graph of operations the replay order lists every operation exactly once, after everything it depends on, groups concurrent ones together, and is the same at every replica holding the same operations. The current heads are exactly the operations nothing else depends on. The tree arithmetic used to place members agrees with a plain recursive definition of the tree for every size.",
 ["inputs","histories"],"all operation graphs and all tree sizes up to the bound",
 "Order bugs show only for particular graph shapes; the tests use two or three fixed graphs.",
 [BK+"operation.rs",BK+"topsort.rs",BK+"treemath.rs"],
 [("topological order into epochs",BK+"operation.rs topsort_graph"),("tree index arithmetic",BK+"treemath.rs")],
 [("CgkaOperationGraph","predecessor map, heads, add heads",BK+"operation.rs")],
 ["CgkaOperationGraph::topsort_graph, cgka_op_heads","treemath functions"],
 tech="generated operation graphs against a reference order checker; exhaustive tree arithmetic against a recursive model", note="")
# ---------------------------------------------------------------- membership
prop("C08","Replicas with the same events agree on every group and document",
 "Peers that have received the same set of events, in any order, in any batches, with duplicates, hold the same groups, documents, direct and transitive members with their access, revoked members, heads, prekeys and group-key membership. Nothing stays pending at a peer that has everything. What a peer that made the events itself holds is no different from what a peer that only received them holds.",
 ["schedules","histories"],"all histories of membership changes by several peers and all delivery orders, batchings and duplications",
 "Convergence is a statement about all pairs of delivery orders of all histories.",
 [KC+"keyhive.rs",KC+"principal/group.rs",KC+"principal/group/membership_operation.rs",KC+"principal/group/state.rs"],
 [("membership materialisation from the operation graph",KC+"principal/group.rs rebuild"),("deterministic linearisation",KC+"principal/group/membership_operation.rs topsort"),("out-of-order ingestion",KC+"keyhive.rs ingest_unsorted_static_events")],
 [("Group.members","live delegations per member",KC+"principal/group.rs"),("GroupState","delegation and revocation heads",KC+"principal/group/state.rs")],
 ["Group::members / transitive_members / revoked_members","Keyhive::pending_event_hashes"],
 tech="stateful generation of multi-peer membership histories; convergence oracle over generated delivery orders, batches and duplicates", note="Histories of up to about 26 operations by up to 4 peers plus observers.")
prop("C09","Effective access is the best delegation path, each path worth its weakest link",
 "At every moment the access somebody has to a group or document, directly or through any chain of nested groups and documents, is the maximum over all membership paths of the minimum access along the path, and nobody outside those paths has any. Everything that answers questions about access (members of a group or document, what an agent can reach, who can reach a document) gives answers consistent with this one definition.",
 ["histories","configurations"],"all membership graphs of nested groups and documents, including diamonds and several levels of nesting",
 "The answer depends on the whole graph; tests use chains and one diamond.",
 [KC+"principal/group.rs",KC+"principal/document.rs",KC+"principal/membered.rs",KC+"keyhive.rs",KC+"access.rs"],
 [("transitive member search",KC+"principal/group.rs transitive_members"),("reachability queries",KC+"keyhive.rs docs_reachable_by_agent / reachable_members")],
 [("Group.members","live delegations per member",KC+"principal/group.rs")],
 ["Group::transitive_members","Keyhive::reachable_docs, reachable_members, docs_reachable_by_agent, membered_reachable_by_agent"],
 tech="generated membership graphs compared with a reference max-min path model after every step", note="")
prop("C10","Nobody can grant or revoke beyond their own authority",
 "A delegation or revocation is accepted only if its signature is valid and its signer, by the chain of proofs it cites, holds at least the access it grants (or the authority to revoke it) in that same group or document. Forged, escalating, cross-group, proof-less or wrongly signed grants and revocations leave every group, document, member list and access unchanged at every peer, whatever else arrives with them, and local calls asking for them are refused without changing anything.",
 ["inputs","histories"],"all signers, proofs, targets and access levels combined into well-formed but unauthorised events, injected at any point of a history",
 "Attacks are combinations of signer, proof and target that tests do not enumerate.",
 [KC+"principal/group.rs",KC+"principal/group/state.rs",KC+"keyhive.rs",KC+"store/delegation.rs"],
 [("delegation validation",KC+"principal/group.rs receive_delegation / state.rs add_delegation"),("revocation validation",KC+"principal/group.rs receive_revocation"),("local checks",KC+"principal/group.rs add_member / revoke_member")],
 [("Group.members","live delegations per member",KC+"principal/group.rs")],
 ["ingest_unsorted_static_events / receive_* of crafted events","Keyhive::add_member / revoke_member results"],
 tech="generated attacks (crafted signed events and local calls by unauthorised peers) against a non-interference oracle comparing state with and without the attack", note="")
prop("C11","A revocation takes effect, with everything that depended on it, until re-granted",
 "After a peer has seen a valid revocation of a member, that member no longer has the revoked access at that peer unless another live grant gives it, and grants that rested only on the revoked one are gone as well, unless the revocation said to retain those members. A revoked member stays revoked whatever old events arrive later, and comes back only by a grant that was not revoked: a new one, or one that rests on somebody whose own access came back. Members that do not depend on the revoked grant keep their access.",
 ["histories","schedules"],"all histories of nested grants, revocations (with and without retaining others) and re-grants, in all delivery orders",
 "Cascades depend on the shape of the proof graph and the order of arrival.",
 [KC+"principal/group.rs",KC+"principal/group/membership_operation.rs",KC+"keyhive.rs"],
 [("revocation and cascade",KC+"principal/group.rs revoke_member / rebuild"),("linearisation",KC+"principal/group/membership_operation.rs topsort")],
 [("Group.members","live delegations per member",KC+"principal/group.rs"),("active_revocations","revocations in force",KC+"principal/group.rs")],
 ["Group::members, transitive_members, revoked_members","Keyhive::revoke_member"],
 tech="stateful generation; lower and upper bounds on live grants computed from the signed events by definition; locally observed effect of each revocation", note="")
prop("C12","Every member has a live chain of valid grants back to the group itself",
 "At every moment and every peer, each delegation counted as a membership traces back through proofs, each signed by the holder of the proof it cites and never granting more than that proof, to a grant signed by the group or document itself. No link of the chain has been validly revoked, unless its holder has another live grant of at least that access.",
 ["histories","schedules"],"all histories and all partial deliveries",
 "It is an invariant of every reachable state, including ones with only part of the events.",
 [KC+"principal/group.rs",KC+"principal/group/delegation.rs",KC+"principal/group/revocation.rs"],
 [("proof chains",KC+"principal/group/delegation.rs proof_lineage"),("materialisation",KC+"principal/group.rs rebuild")],
 [("Group.members","live delegations per member",KC+"principal/group.rs")],
 ["Group::members after every step"],
 tech="state invariant over generated histories with partial delivery: every materialised grant re-validated from the raw signed events", note="")
# ---------------------------------------------------------------- syncing and storage
prop("C13","Syncing gives the other peer everything it needs and nothing is left pending",
 "When a peer that knows another agent sends what it offers that agent, the receiver ends up with the same view of every group, document and group key it can reach as the sender, with nothing left pending, whatever it had before. Repeating the exchange among peers, in any pattern that connects them, makes all peers that share a group or document agree on it. The event set offered for an agent is closed: every event's dependencies are in it.",
 ["histories","schedules"],"all histories and all exchange patterns between peers using the per-agent event queries",
 "Missing-dependency bugs show only for particular nestings and revocation histories.",
 [KC+"keyhive.rs",KC+"principal/membered.rs"],
 [("per-agent event selection",KC+"keyhive.rs events_for_agent / membership_ops_for_agent / reachable_prekey_ops_for_agent / cgka_ops_reachable_by_agent")],
 [("delegation and revocation stores","all known membership operations",KC+"store")],
 ["Keyhive::static_events_for_agent","Keyhive::ingest_unsorted_static_events result","views of reachable groups and documents"],
 tech="stateful generation; sync through the public query API with a closure oracle and a view-equality oracle", note="")
prop("C14","Bulk sync queries give exactly what the per-agent queries give",
 "For every agent a peer knows (itself, individuals, groups, documents, the public agent), the bulk computation of membership, prekey and group-key operations for all agents contains exactly the operations the single-agent query returns, no more and no fewer. An agent absent from the bulk result has nothing to be sent (groups and documents that are a member of nothing may be left out of the bulk prekey result). Hash-only, static and full-event query variants agree with one another.",
 ["histories","configurations"],"all reachable states and all agents",
 "The two code paths are independent implementations; equality must hold on every membership graph.",
 [KC+"keyhive.rs"],
 [("bulk queries",KC+"keyhive.rs membership_ops_for_all_agents / reachable_prekey_ops_for_all_agents / cgka_ops_for_all_agents"),("single queries",KC+"keyhive.rs *_for_agent")],
 [("AllMembershipOps / AllReachablePrekeyOps / AllCgkaOps","indices per agent",KC+"keyhive.rs")],
 ["both query families on the same state"],
 tech="differential check of two implementations on generated states", note="")
prop("C15","Ingestion is idempotent, order-free and never blocked by bad or early events",
 "Ingesting any batch of events terminates; events whose dependencies are missing (the events they refer to, and the grants that give their signer the authority) are reported as pending and applied as soon as the dependencies arrive, in whatever call. Ingesting the same events again changes nothing and reports nothing new, and an invalid event in a batch never prevents the valid ones from being applied nor undoes them. Splitting a batch in any way gives the same result as delivering it whole.",
 ["schedules","inputs"],"all event sets, orders, splits, duplications and admixtures of invalid events",
 "All partitions and orders of a batch cannot be listed in tests.",
 [KC+"keyhive.rs"],
 [("fixpoint ingestion with pending set",KC+"keyhive.rs ingest_unsorted_static_events"),("event table ingestion",KC+"keyhive.rs ingest_event_table")],
 [("pending_events","events waiting for dependencies",KC+"keyhive.rs")],
 ["return value of ingest_unsorted_static_events","pending_event_hashes","views"],
 tech="metamorphic check over generated splits, orders, repetitions and injected invalid events", note="")
prop("C16","An archive restores the peer exactly, and it goes on as if never stopped",
 "A peer rebuilt from its archive (also after encoding and decoding it) has the same identity, groups, documents, members, access, revoked members, heads, prekeys, group keys and pending events, and can decrypt everything it could decrypt before. Every later operation or received event has the same outcome at the rebuilt peer as at the original. Merging an archive into a peer with other state gives the union of both, and loses nothing.",
 ["crash_points","histories"],"all histories and every point in them at which the peer is stopped and restored",
 "Restoring must work from every reachable state, not from the simple ones in tests.",
 [KC+"keyhive.rs",KC+"archive.rs",KC+"principal/document.rs",KC+"principal/active.rs",KC+"principal/group.rs"],
 [("archiving and restoring",KC+"keyhive.rs into_archive / try_from_archive / ingest_archive")],
 [("Archive","what is stored",KC+"archive.rs")],
 ["view of the restored peer","outcomes of later operations on both","decryption of old content"],
 tech="stateful generation with restarts at generated points; differential oracle between original and restored peer", note="")
prop("C17","A transaction either takes full effect or none",
 "Work done on a forked copy of a peer or of its stores is invisible to the original until it is merged. If the work fails or is dropped, the original is exactly as it was; if it succeeds, after the merge the original holds everything the fork made and everything that happened to the original meanwhile, as if the work had been done on the original. Committing is the same for a fork of the whole peer, of an identity's prekeys, of a group key, and of the plain collections; merging forks of collections gives the union.",
 ["histories","fault_sequences"],"all sequences of operations on fork and original, with failure injected at any point",
 "Atomicity must hold for every operation mix and failure point.",
 [KC+"transact.rs",KC+"transact/fork.rs",KC+"transact/merge.rs",KC+"keyhive.rs",KC+"principal/active.rs",KC+"store/ciphertext/memory.rs"],
 [("transactions",KC+"transact.rs transact_async / transact_blocking"),("fork and merge of the peer",KC+"keyhive.rs ForkAsync / MergeAsync")],
 [("fork's event log","what the fork did",KC+"listener/log.rs")],
 ["views of the original before and after transact_* calls"],
 tech="generated operation mixes inside and outside the transaction with injected failure; all-or-nothing oracle", note="")
# ---------------------------------------------------------------- documents and content
prop("C18","Content encrypted for a document opens for its readers and for nobody else",
 "Content a peer encrypts for a document can be decrypted by every peer that, in the encryptor's view, had at least read access (directly or through groups) and has received the events, and gives the original bytes. A peer the encryptor knew to have no read access at that moment (never added, only allowed to relay, or revoked) cannot decrypt it, whatever it receives. This holds for every mix of direct and group-based access, revocations and re-adds.",
 ["histories","schedules"],"all histories of membership changes and encryptions, all delivery orders",
 "It connects membership with group keys over all histories; tests cover a few linear ones.",
 [KC+"principal/document.rs",KC+"keyhive.rs",BK+"cgka.rs"],
 [("membership change updates group key",KC+"keyhive.rs add_member / revoke_member; principal/document.rs add_cgka_member"),("content encryption",KC+"principal/document.rs try_encrypt_content")],
 [("Document.cgka","group key state",KC+"principal/document.rs")],
 ["Keyhive::try_encrypt_content, try_decrypt_content at every peer"],
 tech="stateful generation; readers-can / others-cannot oracle from the access model, with non-readers running the real decryption", note="")
prop("C19","Opening a message also opens exactly its causal history",
 "Causal decryption starting from a content item somebody can open yields every ancestor whose ciphertext is available and reachable through available ciphertexts, each with its original bytes, and nothing else (the item itself too where the caller starts from its key; where it is opened through the document it is opened by ordinary decryption); what could not be reached is reported. Ancestors missing at first can be opened later once their ciphertexts arrive, using the keys learned. The result does not depend on the order in which ciphertexts arrived or in which stores list them.",
 ["inputs","histories"],"all ancestor graphs (chains, diamonds, several roots), all subsets of available ciphertexts",
 "The closure over all graphs and subsets cannot be enumerated by tests.",
 [KC+"store/ciphertext.rs",KC+"crypto/envelope.rs",KC+"principal/document.rs"],
 [("causal decryption",KC+"store/ciphertext.rs try_causal_decrypt"),("ancestor keys in the envelope",KC+"crypto/envelope.rs")],
 [("CausalDecryptionState","complete, cannot, next",KC+"store/ciphertext.rs"),("known_decryption_keys","keys learned",KC+"principal/document.rs")],
 ["Keyhive::try_causal_decrypt_content","CiphertextStore::try_causal_decrypt"],
 tech="generated ancestor DAGs and availability subsets against a reachability reference model", note="")
prop("C20","Prekeys converge, stay usable, and only their owner can change them",
 "Peers that received the same prekey announcements of somebody, in any order, hold the same set of live prekeys: those announced and not rotated away, never an empty set. Picking a prekey for a document succeeds whatever the number of prekeys and picks a live one. An announcement not signed by the owner, or with a broken signature, changes nothing, including for people not yet known.",
 ["inputs","schedules"],"all sequences of adding and rotating prekeys by several peers and all delivery orders and forgeries",
 "It is an order-independence and a forged-input claim; some failures need an exact number of prekeys.",
 [KC+"principal/individual.rs",KC+"principal/individual/state.rs",KC+"principal/individual/op.rs",KC+"contact_card.rs"],
 [("prekey state",KC+"principal/individual/state.rs"),("prekey choice",KC+"principal/individual.rs pick_prekey")],
 [("PrekeyState","prekey operations and live set",KC+"principal/individual/state.rs")],
 ["Individual::prekeys, pick_prekey","receive_prekey_op, receive_contact_card"],
 tech="generated prekey histories, delivery orders and forgeries against a set model", note="")
prop("C21","The listener's event log is enough to rebuild the peer",
 "Every change of shared state a peer makes or accepts is announced to its listener, and nothing else is: replaying only the announced events (with the starting prekeys and its private keys) into a fresh peer of the same identity gives the same groups, documents, members, prekeys and group keys. An event that was refused is never announced. Each announced event is valid at another peer.",
 ["histories","schedules"],"all histories of local and remote operations",
 "Persistence by log is only correct if no code path forgets or over-announces an event.",
 [KC+"listener.rs",KC+"listener/log.rs",KC+"keyhive.rs",KC+"principal/active.rs",KC+"principal/group.rs"],
 [("notifications",KC+"listener/membership.rs, cgka.rs, prekey.rs"),("event log",KC+"listener/log.rs")],
 [("Log","announced events",KC+"listener/log.rs")],
 ["Log contents","view of a peer rebuilt from it"],
 tech="stateful generation; replay of the announced log into a fresh peer, compared by view", note="")
prop("C22","The ciphertext store behaves as a map from content reference to ciphertext",
 "After any sequence of inserts, lookups, removals, bulk removals and clears, with repeats and several documents and key operations, the store answers every lookup (by reference, and by the group-key operation a ciphertext was made under) as a plain map would. Removing entries removes them from every lookup and nothing else. Asked what a batch of events makes readable, it answers with the ciphertexts made under the key operations among them, each once and under its document.",
 ["histories"],"all operation sequences on the store",
 "Index consistency is an invariant of all sequences.",
 [KC+"store/ciphertext.rs",KC+"store/ciphertext/memory.rs"],
 [("in-memory store",KC+"store/ciphertext/memory.rs")],
 [("ops_to_refs / refs_to_digests / ciphertexts","indices",KC+"store/ciphertext/memory.rs")],
 ["get_ciphertext, get_ciphertext_by_pcs_update, mark_decrypted, remove_all, insert"],
 tech="model-based stateful test against a plain map", note="")
prop("C23","Collections and dependency orders behave as their simple definitions",
 "Content-addressed maps answer every insert, lookup, removal and iteration sequence as a plain map keyed by content address. Dependency sorting returns each item exactly once, after everything it depends on, the same for the same input, whatever order it was given in, and reports cycles instead of looping or dropping items silently. The event queue hands out events oldest first and newest first as named.",
 ["inputs","histories"],"all operation sequences and all dependency graphs",
 "Sampled fixtures do not cover the graph shapes and operation sequences used by the rest of the system.",
 [KC+"util/content_addressed_map.rs",KC+"util/topsort.rs",BK+"content_addressed_map.rs",BK+"topsort.rs",KC+"listener/deque.rs"],
 [("content-addressed map",KC+"util/content_addressed_map.rs"),("dependency sort",KC+"util/topsort.rs")],
 [("TopologicalSort","successor and count maps",KC+"util/topsort.rs")],
 ["CaMap, TopologicalSort, Deque public functions"],
 tech="model-based and property checks over generated sequences and graphs", note="")
prop("C24","Hostile events never crash, hang or corrupt a peer",
 "Whatever well-formed events a malicious peer signs with keys of its own (self-referential or cyclic memberships, impossible proofs, group-key operations with arbitrary trees, repeated or contradictory prekey operations, in any order), ingesting them terminates without panic or deadlock. Groups, documents, prekeys and group keys in which the malicious peer was never given a part stay exactly as they would be without it, and the victim can go on using them. Queries and local operations on the victim keep working afterwards.",
 ["inputs","fault_sequences"],"all sequences of hostile well-formed events mixed into honest histories",
 "The adversary picks combinations tests never contain.",
 [KC+"keyhive.rs",KC+"principal/document.rs",KC+"principal/group.rs",BK+"cgka.rs",BK+"tree.rs"],
 [("receive functions",KC+"keyhive.rs receive_static_event ..."),("group-key merge",BK+"cgka.rs merge_concurrent_operation")],
 [("whole peer state","groups, documents, individuals, group keys","keyhive_core/src/keyhive.rs")],
 ["views with and without the hostile events","progress of queries and operations"],
 tech="structure-aware fuzzing with generated hostile events; no-panic, no-deadlock and non-interference oracle", note="")
prop("C25","Public access works for everybody, and stops when taken back",
 "When a document or group grants access to the public agent, every peer, also one unknown to the grantor, can find it from what is offered to the public agent; the public agent is counted as able to reach it; and (with read access) everybody can decrypt content made while it is public. Before the grant and for content made after it is taken back, outsiders get nothing. Prekeys and identity of the public agent cannot be altered by anybody.",
 ["histories"],"all histories mixing public grants and revocations with other membership changes",
 "Public access crosses every other rule (nesting, levels, revocation), tested only in one or two orders.",
 [KC+"principal/public.rs",KC+"keyhive.rs",KC+"principal/document.rs"],
 [("well-known public identity",KC+"principal/public.rs"),("public decryption fallback",KC+"principal/document.rs")],
 [("Public","well-known key",KC+"principal/public.rs")],
 ["events offered to and decryption by peers with no grant of their own"],
 tech="stateful generation with outsiders; can / cannot decrypt oracle from the model", note="")
prop("C26","Statistics count what is there",
 "The statistics a peer reports (individuals, groups, documents, delegations, revocations, prekeys expanded and rotated, group-key operations, pending operations by kind) equal what is counted from the events it has been given and accepted. They never change by reading, by duplicate delivery or by restoring an archive.",
 ["histories"],"all histories and partial deliveries",
 "Counters drift only on particular paths (duplicates, pending completion, restore).",
 [KC+"keyhive.rs",KC+"stats.rs"],
 [("statistics",KC+"keyhive.rs stats")],
 [("Stats","counters",KC+"stats.rs")],
 ["Keyhive::stats"],
 tech="generated histories; counts recomputed from the event set", note="")
prop("C27","Exported prekey secrets let another device read invitations",
 "A second device with the same identity that imports the exported prekey secrets of the first can process invitations addressed to those prekeys and decrypt the document's content, also if the invitations arrived before the import. Without the import those invitations wait and are not lost. Import is idempotent and never removes secrets the device already has.",
 ["histories","schedules"],"all orders of invitations, prekey changes, exports and imports",
 "Order of import and invitation must not matter.",
 [KC+"keyhive.rs",KC+"principal/active.rs"],
 [("export and import of prekey secrets",KC+"keyhive.rs export_prekey_secrets / import_prekey_secrets")],
 [("prekey_pairs","secrets by public prekey",KC+"principal/active.rs")],
 ["import_prekey_secrets then pending_event_hashes and decryption"],
 tech="stateful generation over two-device histories with a decryption oracle", note="")

prop("C28","A call that fails, or only asks, changes nothing",
 "When a call on a peer fails (an unauthorised grant or revocation, encrypting or decrypting without the key or damaged data, a forged or refused event or contact card, importing damaged secrets or archives), the peer afterwards knows, stores and announces exactly what it did before. Queries and archiving change nothing either, and giving a peer an event, card or operation that it already has succeeds and changes nothing. (Which group keys a peer has already derived is a cache and does not count.)",
 ["inputs","histories"],"all reachable states, and all calls that fail or only ask, in any sequence",
 "A partial effect of a failed call is invisible until much later: the caller was told that nothing happened.",
 [KC+"keyhive.rs",KC+"principal/document.rs",KC+"principal/group.rs",BK+"cgka.rs"],
 [("calls check before they change anything, or undo what they changed",KC+"keyhive.rs"),("group-key operations work on a clone where they may fail",BK+"cgka.rs")],
 [("all state of a peer","groups, documents, delegations, revocations, prekeys, pending events, key trees",KC+"keyhive.rs")],
 ["results of the public calls, view, archive and event listener before and after"],
 tech="stateful generation; before/after comparison of view, archive and announced events around failing, repeated and read-only calls", note="")

prop("C29","Calls running at the same time on one peer all finish and lose nothing",
 "Calls that are under way at the same time on one peer (ingesting events and cards, granting, revoking, encrypting, updating keys, generating groups and documents, queries, archiving), interrupted at any of the points where they wait, all come to an end, and afterwards the peer has the effect of each: it knows all events it was given and made itself (receiving them again changes nothing), agrees with a peer given the same events one after the other, can open what it encrypted, and keeps waiting events.",
 ["schedules","histories"],"all interleavings of concurrent calls at their suspension points, from all reachable states",
 "The API takes &self and is async: servers call it from many tasks. Tests run one call at a time.",
 [KC+"keyhive.rs",KC+"principal/document.rs",KC+"principal/group.rs",KC+"principal/agent.rs"],
 [("locks are taken in one order, and looking up and inserting is one step",KC+"keyhive.rs receive_delegation / receive_prekey_op / ingest_unsorted_static_events")],
 [("active, groups, docs, individuals, delegations, pending_events, csprng","each behind its own async lock",KC+"keyhive.rs Keyhive")],
 ["completion of the futures, views before and after redelivery, decryption, view of an observer"],
 tech="generated interleavings: calls as futures polled in generated order by a deterministic executor with generated lock contention; differential oracle against sequential delivery, deadlock detection", note="")
