#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step with MANIFEST.json)."""
import json, pathlib
C="keyhive_core/src/"; B="beekem/src/"; K="keyhive_crypto/src/"
def P(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    return dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
props=[
P("M01","Membership converges whatever the delivery order",
 "Any two nodes that have received the same set of signed events report, for every group and document they both know, the same members with the same access and the same set of live (unrevoked) delegations. This holds whatever order, batching, duplication, delay or partition the events were delivered under, and whatever order concurrent grants and revocations were issued in.",
 ["schedules","histories","fault_sequences"],
 "every history of concurrent membership changes by any number of writers, and every delivery order, batching, loss-then-retry, duplication and partition of its events",
 "Existing tests deliver one or two hand-written histories in one or two orders; convergence is a claim over all permutations and partitions of every history.",
 [C+"principal/group.rs",C+"principal/group/state.rs",C+"principal/group/membership_operation.rs",C+"keyhive.rs",C+"store/delegation.rs",C+"store/revocation.rs"],
 [("deterministic rebuild of the member set from a topological sort of the operation DAG",C+"principal/group.rs"),("reverse topological sort with tie-breaking",C+"principal/group/membership_operation.rs"),("unordered ingestion to a fixed point",C+"keyhive.rs ingest_unsorted_static_events")],
 ["reachable members and access of every group and document on every node","live delegation set"],
 [("members","member id -> live delegations",C+"principal/group.rs"),("active_revocations","revocations in force",C+"principal/group.rs")]),
P("M02","Membership is exactly what authorised operations grant",
 "The direct members of a group or document that a node reports, and the access each has, are exactly those an independent reading of the authority rules derives from the operations that node has accepted: a grant counts only if it descends from the root key through grants each held by the next issuer, none exceeding the grant it relies on, and none revoked by someone entitled to revoke it.",
 ["histories","schedules","fault_sequences"],
 "every history of grants, revocations, re-grants, delegation chains and concurrent revocations, received in any order",
 "Unit tests check a few fixed delegation diagrams; the rule must hold for every DAG of grants and revocations.",
 [C+"principal/group.rs",C+"principal/group/state.rs",C+"principal/group/delegation.rs",C+"principal/group/revocation.rs"],
 [("proof lineage and access check on receipt",C+"principal/group/state.rs"),("rebuild of member map",C+"principal/group.rs rebuild")],
 ["members of every group and document after every delivery"]),
P("M03","Access through nested groups is the best path's weakest link",
 "The access an agent is reported to have to a group or document is the strongest over all chains of live memberships leading to it of the weakest link on the chain, and an agent with no such chain is not reported at all. The answer is the same from both directions (who can reach this document, and what can this agent reach) and does not depend on internal iteration order, including with diamonds and cyclic nesting.",
 ["histories","schedules","configurations"],
 "every graph of users, groups and documents nested in each other, including diamonds and cycles, with any access on each edge",
 "Tests pin a handful of small graphs and the result depended on hash-map iteration order, which a single run samples once.",
 [C+"principal/group.rs",C+"principal/document.rs",C+"keyhive.rs",C+"access.rs",C+"ability.rs"],
 [("transitive member walk",C+"principal/group.rs transitive_members"),("reachability queries",C+"keyhive.rs docs_reachable_by_agent, membered_reachable_by_agent, reachable_members")],
 ["reachable members, docs reachable by an agent, groups reachable by an agent, reachable docs of the active user"]),
P("M04","A revocation takes effect everywhere it arrives and stays in effect",
 "Once a node has a revocation of a member issued by someone entitled to issue it, and no later re-grant, that node never again reports the member as having the revoked access, no matter which older events arrive or are redelivered afterwards or whether the node restarts. Other members' access is unaffected when the revoker asked to keep them, and grants that rested only on the revoked one fall with it when not.",
 ["schedules","histories","crash_points","fault_sequences"],
 "every history of grants, delegated grants, revocations with and without retention and re-grants; every delivery order, duplication and restart",
 "Tests revoke once in order on one node; resurrection by late, reordered or replayed grants and after restarts is not sampled.",
 [C+"principal/group.rs",C+"principal/document.rs",C+"keyhive.rs",C+"store/revocation.rs"],
 [("revocation creation and redelegation",C+"principal/group.rs revoke_member"),("revocation application in rebuild",C+"principal/group.rs rebuild")],
 ["members of the group on the revoker, on peers, and after restarts"]),
P("M05","Unauthorised or tampered events never take effect",
 "Feeding a node any number of events that are badly signed, altered in transit, self-issued without authority, escalated beyond the issuer's own access, or that revoke without entitlement, at any point between honest events, never changes the membership, access, keys or document state it reports compared with never having received them. Honest events delivered around them still take full effect.",
 ["inputs","histories","schedules","fault_sequences"],
 "every honest history interleaved anywhere with any mix of forged, tampered, replayed-out-of-context and unauthorised events from outsiders and low-access insiders",
 "Tests try a couple of single forged events against a fresh group; they do not interleave attacks with honest traffic, out-of-order delivery or partial knowledge.",
 [C+"keyhive.rs",C+"principal/group/state.rs",C+"principal/individual.rs",C+"principal/document.rs",C+"cgka.rs",K+"signed.rs"],
 [("signature verification",K+"signed.rs try_verify"),("authority checks on receipt",C+"principal/group/state.rs"),("prekey op verification",C+"principal/individual.rs")],
 ["every observable query on the attacked node versus an un-attacked twin"]),
P("R01","Hostile or malformed input never crashes or hangs a node",
 "Whatever well-formed-on-the-wire events, contact cards, archives or ciphertexts a node is given, in whatever order, every call returns (with success or an error) without panicking or deadlocking, and the node continues to serve its honest users afterwards.",
 ["inputs","schedules","histories","fault_sequences"],
 "every sequence of decodable inputs, honest or hostile, including cyclic group nesting, revocations of roots, dangling references and mixed-up identities",
 "Tests feed only inputs produced by correct peers in sensible orders.",
 [C+"keyhive.rs",C+"principal/group.rs",C+"principal/document.rs",C+"principal/individual.rs",B+"cgka.rs",B+"tree.rs",B+"operation.rs"],
 [("error returns on every ingestion path",C+"keyhive.rs")],
 ["absence of panics; completion of each call within a step budget; later honest operations succeed"]),
P("K01","Members applying the same key operations derive the same group key",
 "All current members of a document's key group that have applied the same set of key operations (adds, removes, updates, however concurrent and in whatever causal order) derive the same current secret when there is one, and the same secret for every past update they were entitled to; any member can always establish a fresh secret that every other current member then derives.",
 ["schedules","histories","fault_sequences"],
 "every history of concurrent adds, removes and updates by any number of members and every causally consistent delivery order, batching and duplication",
 "Tests run fixed topologies of concurrent operations with one delivery order each.",
 [B+"cgka.rs",B+"tree.rs",B+"operation.rs",B+"secret_store.rs",B+"keys.rs",B+"topsort.rs"],
 [("deterministic replay of the operation graph in epochs",B+"operation.rs topsort_for_heads, cgka.rs replay_ops_graph"),("conflict key merge",B+"tree.rs apply_path"),("path blanking and leaf sorting",B+"tree.rs")],
 ["derived group key per member and per update operation"]),
P("K02","Readers can decrypt what is encrypted after they are admitted",
 "When content is encrypted for a document by a node that at that moment knows a user as having at least read access, then once that user's node has received the corresponding events it decrypts the content to exactly the original bytes, under any concurrency of membership changes, key updates and prekey rotations, any delivery order, and across restarts.",
 ["schedules","histories","crash_points","fault_sequences"],
 "every history of membership, prekey and encryption operations by any number of nodes, and every delivery order, loss-then-retry and restart",
 "Tests encrypt once on one node and decrypt once on another after a full in-order sync.",
 [C+"principal/document.rs",C+"keyhive.rs",C+"cgka.rs",B+"cgka.rs",B+"encrypted.rs"],
 [("adding readers to the key group with a prekey",C+"principal/document.rs add_member"),("key derivation by update op",B+"cgka.rs decryption_key_for")],
 ["decryption result at every reader"]),
P("K03","Without read access there is no decryption",
 "A user who was never given read access, has only relay access, was admitted only after the content was encrypted, or was revoked before the encrypting node encrypted it (with the revocation known to that node), cannot decrypt that content, even holding every event and ciphertext in the system and all of their own keys.",
 ["schedules","histories","fault_sequences"],
 "every history of membership and encryption operations, every delivery order, and every non-entitled user pooling everything that was ever sent",
 "Tests check one removed member and one outsider in a single sequence each.",
 [C+"principal/document.rs",C+"principal/group.rs",C+"cgka.rs",B+"cgka.rs",B+"tree.rs"],
 [("removal from the key group on revocation",C+"principal/document.rs revoke_member"),("path blanking on removal",B+"tree.rs remove_id"),("only readers enter the key group",C+"principal/document.rs add_member")],
 ["decryption attempts by every non-entitled node holding all events"]),
P("K04","Damaged or relabelled ciphertext never yields wrong plaintext",
 "If any part of a ciphertext or its metadata is altered in storage or transit, or it is presented for the wrong document or reference, decryption at any node either fails with an error or returns exactly the bytes that were originally encrypted under that reference; and the node can still decrypt undamaged content afterwards.",
 ["inputs","histories","fault_sequences"],
 "every ciphertext produced in any history, and every corruption, truncation, splice or relabelling of its bytes and metadata, at any node state",
 "Tests flip one bit of a raw sealed blob; they never corrupt document ciphertext metadata or interleave damaged reads with other operations.",
 [B+"encrypted.rs",B+"pcs_key.rs",B+"cgka.rs",K+"symmetric_key.rs",K+"siv.rs",C+"principal/document.rs"],
 [("key derivation bound to references",B+"pcs_key.rs derive_application_secret"),("authenticated encryption",K+"symmetric_key.rs")],
 ["decryption result for each damaged ciphertext"]),
P("K05","Causal decryption recovers the whole history despite storage faults",
 "Decrypting from a head yields each reachable ancestor exactly once with its original content, names the ones whose ciphertext is missing together with a working key, and never reports content that was not encrypted. If storage lookups fail, stall or return damaged or missing data along the way, nothing already in storage becomes unrecoverable: repeating the call once the faults stop recovers the complete history.",
 ["histories","fault_sequences","schedules","inputs"],
 "every content history DAG, every subset of missing ciphertexts, and every sequence of store errors, corruptions and retries",
 "Tests decrypt fixed small graphs from an in-memory store that never fails.",
 [C+"store/ciphertext.rs",C+"store/ciphertext/memory.rs",C+"principal/document.rs",C+"crypto/envelope.rs"],
 [("ancestor walk",C+"store/ciphertext.rs try_causal_decrypt"),("envelope with ancestor keys",C+"crypto/envelope.rs")],
 ["completed content, missing list and keys returned, store contents afterwards"]),
P("D01","A node restarted from its archive is the node that was saved",
 "Restarting from an archive taken at any moment, even between the arrival of an event and its dependencies, gives a node that reports the same groups, documents, members, access, revocations, prekeys, pending events and sync sets, and can decrypt everything it could decrypt before. After exchanging events with its peers again it converges with nodes that never crashed.",
 ["crash_points","histories","schedules","fault_sequences"],
 "every history, every point at which an archive is taken, every later crash losing any amount of work since, and any number of crash-restart cycles",
 "Tests round-trip an archive of one small hand-made state.",
 [C+"keyhive.rs",C+"archive.rs",C+"principal/group.rs",C+"principal/document.rs",C+"principal/active.rs"],
 [("archive export",C+"keyhive.rs into_archive"),("reconstruction",C+"keyhive.rs try_from_archive")],
 ["all queries before and after restart; convergence after re-sync"]),
P("D02","Early events are kept and take effect once their dependencies arrive",
 "An event that arrives before something it depends on is never lost or rejected for good: it stays visibly pending, across restarts and however many batches are in between, and takes effect as soon as its dependencies have arrived. Once a complete set of honest events has been delivered in any order and batching, nothing is left pending, and undecidable or hostile events never hold honest ones back.",
 ["schedules","histories","crash_points","fault_sequences"],
 "every partition of every event history into batches in any order, with restarts and junk in between",
 "Tests deliver a few events reversed or shuffled once, in a single batch.",
 [C+"keyhive.rs",C+"error/missing_dependency.rs"],
 [("pending list and retry to fixed point",C+"keyhive.rs ingest_unsorted_static_events"),("missing-dependency classification",C+"keyhive.rs")],
 ["pending event set, result of ingestion, membership and key state after each batch"]),
P("D03","Redelivering events changes nothing",
 "Delivering again any events a node has already applied, in any order, any number of times and mixed with new ones, has no effect on what it reports, on what it will send to peers, on its keys, or on its pending events, and leaves no lasting growth.",
 ["schedules","histories","fault_sequences"],
 "every history and every duplicated, reordered redelivery of any subset of its events",
 "Tests redeliver a single batch once.",
 [C+"keyhive.rs",C+"principal/group.rs",C+"principal/individual.rs",B+"cgka.rs"],
 [("content-addressed operation stores",C+"util/content_addressed_map.rs"),("duplicate check",B+"cgka.rs merge_concurrent_operation")],
 ["stats, membership, sync sets and pending before and after redelivery"]),
P("S01","What a node sends a peer is enough for that peer to catch up",
 "For any peer, ingesting the events a node offers it leaves nothing pending and makes the peer report, for every document and group that peer can reach, the same members and access as the sender, whatever the peer already knew. The bulk per-everyone queries agree exactly with the per-peer queries.",
 ["histories","schedules","configurations"],
 "every history of nested groups and documents, every peer identity, and every prior state of the peer",
 "Tests compare one or two small topologies.",
 [C+"keyhive.rs"],
 [("membership closure",C+"keyhive.rs membership_ops_for_agent"),("prekey closure",C+"keyhive.rs reachable_prekey_ops_for_agent"),("key-op closure",C+"keyhive.rs cgka_ops_reachable_by_agent")],
 ["a fresh or lagging peer's state after ingesting the offered events; equality of bulk and per-agent results"]),
P("S02","A node offers a peer nothing about what the peer cannot reach",
 "The membership and key events offered to a peer concern only groups and documents that peer has, or has had revoked, access to, together with what those depend on. A peer with no access to anything in common is offered no membership or document key events at all.",
 ["histories","configurations","schedules"],
 "every history of nested and disjoint groups and documents and every peer identity",
 "Tests assert presence of expected events for one topology; absence over all topologies is not sampled.",
 [C+"keyhive.rs"],
 [("membership closure",C+"keyhive.rs membership_ops_for_agent"),("key-op closure",C+"keyhive.rs cgka_ops_reachable_by_agent")],
 ["events offered to every known agent"]),
P("S03","The stream of emitted events is a complete record of local changes",
 "Every change a node makes through its own operations is announced to its listener exactly once and after it is signed, so a second node fed only that stream (plus what the first received from others) reports the same membership and can be brought to the same keys; operations that fail announce nothing that is not also in effect.",
 ["histories","schedules","fault_sequences"],
 "every sequence of local operations, succeeding or failing, on any number of nodes, with slow listeners",
 "Tests check the listener after a single operation.",
 [C+"listener/log.rs",C+"listener/deque.rs",C+"principal/group.rs",C+"principal/document.rs",C+"principal/active.rs",C+"keyhive.rs"],
 [("listener calls",C+"principal/group.rs, document.rs, active.rs")],
 ["state of a replica built from the stream"]),
P("P01","Published prekeys converge and rotated-out keys fall out of use",
 "Nodes that have received the same prekey events for a user, in any order, agree on that user's current prekeys; a prekey that has been rotated away is current at none of them and is never chosen for new grants; the user always holds the secret for each of their own current prekeys; and contact cards lead to the same state.",
 ["schedules","histories","crash_points","fault_sequences"],
 "every history of prekey expansion and rotation, including chains and several devices of one user, in any delivery order with restarts",
 "Tests rotate one key once in order.",
 [C+"principal/individual.rs",C+"principal/individual/state.rs",C+"principal/individual/op.rs",C+"principal/active.rs",C+"contact_card.rs",C+"keyhive.rs"],
 [("materialisation of prekey ops",C+"principal/individual/state.rs"),("prekey choice",C+"principal/individual.rs pick_prekey")],
 ["current prekeys and choices at every node; secrets at the owner"]),
P("A01","Concurrent calls on one node all finish and none is lost",
 "On a node none of whose groups and documents contain each other in a circle, any number of tasks calling the node's operations concurrently, suspended and resumed at any await point in any order, all complete; every operation that reported success is reflected in the final state and in what the node sends to peers, and peers that ingest it converge to the same state.",
 ["schedules","histories"],
 "every interleaving of the await points of every set of concurrent operations, with arbitrarily slow signers, listeners and stores",
 "Tests call operations one after another on one task.",
 [C+"keyhive.rs",C+"principal/group.rs",C+"principal/document.rs",C+"principal/active.rs"],
 [("per-object async mutexes",C+"keyhive.rs"),("pending list update",C+"keyhive.rs ingest_unsorted_static_events")],
 ["task completion; final state versus effects of successful calls; peer state"]),
P("A02","A failed or abandoned operation leaves the node consistent",
 "If an operation fails because signing or storage fails at any point, or is abandoned midway, then no partial effect shows that peers cannot reproduce: the node and a peer that receives all its events agree on membership and keys, and later operations succeed and remain decryptable and acceptable to every peer.",
 ["fault_sequences","crash_points","schedules","histories"],
 "every operation, every await point at which signing fails or the call is dropped, in every surrounding history",
 "Tests use a signer that never fails and never drop a call.",
 [C+"principal/document.rs",C+"principal/group.rs",C+"principal/active.rs",C+"cgka.rs",B+"cgka.rs",B+"tree.rs",C+"keyhive.rs"],
 [("sign-then-apply ordering",B+"cgka.rs"),("operation sequencing",C+"principal/document.rs, group.rs")],
 ["node versus peer state after the failure; success of follow-up operations"]),
P("A03","Transactions on a forked node are all or nothing",
 "When a transaction on a fork of a node fails, the original is exactly as it was; when it succeeds, every change made in the fork is in the original afterwards together with every change the original made in the meantime, and the result still converges with peers.",
 ["histories","schedules","fault_sequences"],
 "every set of operations on the fork and concurrently on the original, succeeding or failing at any point",
 "One test forks once with a single kind of change and no concurrent change on the original.",
 [C+"transact.rs",C+"transact/fork.rs",C+"transact/merge.rs",C+"keyhive.rs",C+"principal/active.rs",B+"cgka.rs"],
 [("fork",C+"keyhive.rs fork_async"),("merge by replay of the fork's log",C+"keyhive.rs merge_async")],
 ["state of the original before and after; peer state"]),
]
import sys
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in props))
print(len(props))
for p in props:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
