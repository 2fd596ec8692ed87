#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the lines stay consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PR="src/state/process.rs"; PA="src/state/parallel.rs"; CO="src/state/collection.rs"; SM="src/smr/state_machine.rs"
AU="src/utils/auth_manage.rs"; TI="src/timer.rs"; CD="src/codec.rs"; OV="src/overlord.rs"

prop("C01","A quorum certificate counts only with over two thirds of the voting weight",
 "A node acts on a quorum certificate received from the network (votes, locks, commits, changes round or stores it in its write-ahead log because of it) only if the validators marked in the certificate's bitmap together hold strictly more than two thirds of the total voting weight of that height's validator list. The same holds for a certificate that travels as the proof of lock inside a proposal. Any certificate that meets this and whose aggregate signature verifies is accepted when it is for the current height and round.",
 ["inputs","configurations"],"all validator weights, all bitmaps, all certificate fields, all four carriers",
 "The tests build certificates from well-behaved simulated nodes only; the bitmap/weight combinations that sit just below the threshold, or a certificate nobody honest would assemble, are never presented to a running node.",
 [PA,AU,PR],[("quorum check of the bitmap",PA+":get_voters / "+AU+":is_above_threshold"),("certificate handling",PR+":handle_aggregated_vote")],
 observe=["messages sent through the Consensus trait","WAL records","commit calls"])

prop("C02","Certificate signatures bind voters, height, round, step and block",
 "A node acts on a quorum certificate, wherever it is carried (on its own, as a proposal's proof of lock, or as the justification inside a choke message), only if its aggregate signature verifies over exactly the validators marked in the bitmap and over exactly the height, round, vote type and block hash the certificate states. A proof of lock must moreover be a prevote certificate for the proposal's own height and block and for the lock round the proposal claims, which precedes the proposal's round.",
 ["inputs","histories"],"all certificate contents, all carriers, all forged or replayed signatures",
 "Tests never send forged or mismatching certificates, and the mock crypto of the integration tests accepts every signature.",
 [PA,PR],[("signature verification before handling",PA+":parallel_verify, verify_qc"),("choke justification",PR+":handle_signed_choke")],
 observe=["votes, commits and round changes that follow a certificate"])

prop("C03","A node never signs two different votes for the same height, round and step",
 "For every height, round and vote type, all votes a node ever releases to the network or counts as its own carry the same block hash. This holds for every order of messages, timeouts, validation results and new-height notifications, and also across a crash at any point followed by a restart from the write-ahead log.",
 ["schedules","histories","crash_points"],"all interleavings of messages, timer expiries, block-check results and status updates; all crash points",
 "Equivocation needs a specific race (a status overtaking a queued vote, a timer firing next to a proposal, a crash between log and send); the integration tests sample a handful of schedules and do not look for it.",
 [PR,SM,"src/wal/wal_type.rs"],[("step gating of triggers",SM+":handle_proposal, handle_prevote"),("log before send",PR+":handle_vote_event"),("recovery",PR+":start_with_wal")],
 observe=["SignedVote messages"])

prop("C04","A locked node prevotes its locked block until a later certificate releases it",
 "Once a node has locked on a block in a round (it has accepted a prevote certificate for that block at this height), its prevotes in later rounds of that height are for the locked block, until it has accepted a prevote certificate of a higher round than the lock (for another block, or for no block). A proposal or its proof of lock that is invalid, or not newer than the lock, never changes what a locked node prevotes for.",
 ["histories","inputs","crash_points"],"all lock rounds, all proposals with or without proof of lock, all certificate sequences, restart in between",
 "Unlocking decisions depend on the numeric relation of three rounds and on the validity of nested certificates; tests exercise none of the adversarial combinations.",
 [SM,PR],[("lock handling on proposal",SM+":handle_proposal"),("lock update on certificate",SM+":handle_prevote, update_polc")],
 observe=["prevotes sent"])

prop("C05","A precommit for a block needs a prevote certificate and a passed block check",
 "A node sends a precommit for a block only when it holds a valid prevote certificate for that block at the current height, and the application's block check for that block at that height has passed. Without such a certificate it precommits nothing but the empty hash, and a failed, missing or stale (earlier height) check result never counts as passed.",
 ["histories","schedules","inputs"],"all orders of proposal, certificate, block-check result and timeouts; all hashes and rounds",
 "The tests' block check always passes immediately; late, failing or stale check results and certificate-first orders are not explored.",
 [PR,SM],[("full-transaction gate",PR+":try_get_full_txs, handle_resp"),("prevote certificate trigger",SM+":handle_prevote")],
 observe=["precommits sent"])

prop("C06","A block is committed once per height, only with a valid precommit certificate",
 "A node hands a block to the application's commit only at its current height, with a proof made of a valid precommit certificate (sufficient weight, verified signature) for exactly that block hash, height and round, and with the block content the application's check approved for that hash. After a successful commit it never commits again at that or a lower height, except that the same block may be handed over again after a crash and restart.",
 ["histories","schedules","inputs","crash_points"],"all message contents and orders, including conflicting proposals for one hash, restart in the commit step",
 "Safety of commit depends on inputs no honest peer sends (forged certificates, two contents for one hash) and on the order of asynchronous events, which sampled runs do not reach.",
 [PR,PA],[("commit path",PR+":handle_commit"),("precommit certificate trigger",SM+":handle_precommit")],
 observe=["Consensus::commit calls"])

prop("C07","State is logged before it is acted on, and a restart resumes from the log",
 "Before a vote or choke of some round and step leaves the node, the write-ahead log has successfully stored a record with that height, round, step and current lock; before commit is called, one with the commit step and the committed block. If saving fails, that message is not sent and commit is not called. After a restart from any stored record, the node never acts in an earlier round or step than the record says, and it keeps the record's lock.",
 ["crash_points","fault_sequences","histories"],"every log write may fail; every crash point between two external effects; every reachable record",
 "Unit tests check only that the record encodes; crash and write-failure points need exhaustive placement.",
 [PR,"src/wal/wal_type.rs",SM],[("log writes",PR+":save_wal, save_wal_with_lock_round"),("recovery",PR+":start_with_wal, "+SM+":handle_wal")],
 observe=["Wal::save / load calls","messages sent"])

prop("C08","Only the scheduled leader's signed proposal is prevoted or relayed as proposal",
 "A node reacts to a proposal (prevotes it, caches its block or has it checked) only if it is correctly signed by the leader scheduled for the proposal's height and round, and between two restarts at most one proposal per height and round is acted on. A node broadcasts proposals only for its current height and round when it is the scheduled leader; if it is locked, it proposes the locked block with the matching proof of lock, otherwise the block the application supplied.",
 ["inputs","histories","configurations"],"all proposers, rounds, signatures; all lock states when becoming leader",
 "Tests only run honest leaders; wrong leaders, bad signatures, double proposals and leaders that hold a lock are not sampled.",
 [PR,PA,AU],[("proposer check",PR+":verify_proposer"),("proposing",PR+":handle_new_round"),("proposal signature check",PA+":parallel_verify")],
 observe=["proposals broadcast","prevotes","check_block calls"])

prop("C09","Leader selection is total, deterministic, order independent and fair",
 "For every non-empty validator list and every height and round below 2^63, leader selection returns a member of the list, the same one no matter how the list is ordered, and the public helper agrees with the leader the running node actually follows. Without the random option, any run of as many consecutive rounds of a height as there are validators gives each validator exactly one turn, and consecutive heights do not keep the same leader when there is more than one validator. With the random option a validator with zero propose weight never leads when another has positive weight, and selection depends only on height plus round and the weights.",
 ["inputs","configurations"],"all list sizes within the bound, all heights and rounds, all weights",
 "Unit tests compare nine fixed seeds of the random variant; arithmetic at extreme heights, rounds and weights and the agreement of the two implementations are not tested.",
 [AU,"src/utils/rand_proposer.rs"],[("rotation",AU+":rotation_leader_index"),("public helper",AU+":get_leader"),("random choice","src/utils/rand_proposer.rs:get_random_proposer_index")],
 observe=["get_leader","who a node proposes for / transmits to"])

prop("C10","The leader forms a certificate exactly when its votes exceed two thirds",
 "When a node leads a round, it broadcasts a certificate for a vote type and hash as soon as, and only if, distinct validators holding strictly more than two thirds of the total voting weight have sent it correctly signed votes for exactly that height, round, type and hash. The bitmap marks exactly those validators in sorted address order, the aggregated signature is built from exactly their signatures, and repeated or conflicting votes of one validator never count twice.",
 ["inputs","histories","configurations"],"all vote sequences within the bound, all voter identities, hashes and weights",
 "Vote counting with unequal weights, duplicates, strangers and conflicting votes is not tested on a running leader; equal-weight honest voting is.",
 [PR,CO,AU],[("counting",PR+":counting_vote"),("certificate building",PR+":generate_qc"),("vote storage",CO+":Votes::insert")],
 observe=["AggregatedVote broadcasts"])

prop("C11","Encoding round-trips and decoding arbitrary bytes never panics",
 "For every message and write-ahead-log type, decoding an encoded value yields an equal value (an absent status interval or timer configuration and an all-zero one are the same on the wire), and different values do not share an encoding. Decoding any byte string, of any length and content, returns a value or an error and never panics.",
 ["inputs"],"all field values within the size bound, all byte strings within the length bound",
 "Unit tests round-trip one random instance per type and never decode malformed input.",
 [CD],[("codec",CD),("tag decoding",CD+":UpdateFrom::decode, WalInfo::decode")],
 observe=["rlp::encode / rlp::decode of the public types"])

prop("C12","The hex text form of byte fields is lossless and rejects malformed text",
 "Serialising a type's byte-string fields to text and back yields the same bytes for every content and length, including empty ones and lists of addresses. Deserialising any text that is not well-formed hexadecimal returns an error and never panics or invents data.",
 ["inputs"],"all byte contents and all text contents within the length bound",
 "Round trips of a few random values are tested; malformed text is not.",
 ["src/serde_hex.rs","src/serde_multi_hex.rs"],[("hex helpers","src/serde_hex.rs"),("list helper","src/serde_multi_hex.rs")],
 observe=["serde serialisation of public types"])

prop("C13","Votes and proposals are always for the present; rounds and heights never go back",
 "Everything a node signs (proposal, vote, choke) is for the height and round it is in at that moment, and over its lifetime the pair of height and round of what it signs never decreases, nor does the step within a round. Messages of lower heights and rounds, timeouts of rounds it has left, and status notifications that are not newer cause no signature, no commit and no change of round (except that a valid precommit certificate for a block commits at any round of the current height).",
 ["histories","schedules","inputs"],"all sequences of current and stale messages, timer expiries and statuses within the bound",
 "Stale events have to arrive at a specific moment to matter; sampled runs do not enumerate those moments.",
 [PR,SM,TI],[("stale filters",PR+":filter_message; "+SM+" height/round guards; "+TI+":trigger"),("round state",PR+":handle_new_round")],
 observe=["signed messages"])

prop("C14","Timeouts follow the configured ratios, bounded back-off and the latest settings",
 "Each round's propose, prevote and precommit timer lasts interval times the configured ratio in tenths, doubled once per round up to five doublings, for every round number; the choke retry timer never backs off. An interval or ratio set delivered with a new height the node takes part in is used for every timer started from that height on. A timer that fires for a finished round, step or height has no effect on the node.",
 ["inputs","configurations","histories"],"all intervals and ratios in range, all rounds, setting changes at a new height, restart in any step",
 "Unit tests check only which trigger follows which event, with one interval, and never the duration.",
 [TI,"src/utils/timer_config.rs"],[("duration",TI+":set_timer, src/utils/timer_config.rs:get_timeout"),("expiry filter",TI+":trigger")],
 observe=["durations passed to the sleep primitive"])

prop("C15","A node leaves a round only on valid evidence",
 "Within a height a node moves to a higher round only because of a valid precommit certificate for no block, a valid prevote certificate of a higher round, or choke messages for that round correctly signed by distinct members of the validator list numbering more than two thirds of it (collected directly, or aggregated with a signature that verifies over exactly those members). Forged, repeated or outsiders' chokes and unverifiable aggregated chokes never move it, and it does move when the evidence is there (for a prevote certificate: for no block, or for a block whose check passed).",
 ["inputs","histories"],"all choke senders, rounds, justifications and signatures; all certificate contents",
 "Byzantine chokes are never produced in tests.",
 [PR,CO,PA],[("choke counting",PR+":check_choke_above_threshold, "+CO+":ChokeCollector"),("aggregated choke",PR+":handle_aggregated_choke")],
 observe=["rounds of the messages the node signs","view-change reports"])

prop("C16","No message from outside can crash or wedge a node",
 "No sequence of messages of any kind and content handed to a running node (proposals, votes, certificates, chokes, statuses, stop requests), in any state, makes any part of it panic or stop serving later messages; only an explicit stop request ends it, and then it sends nothing more.",
 ["inputs","histories","configurations"],"all message kinds with extreme field values, all prior states within the bound",
 "A crash needs an input no test sends (extreme rounds, unknown senders, the stop message).",
 [PR,OV,"src/types.rs"],[("message dispatch",PR+":run, handle_msg"),("height lookup","src/types.rs:OverlordMsg::get_height")],
 observe=["node still reacts to a valid message afterwards"])

prop("C17","Messages for the future are bounded, and re-verified before use",
 "A proposal, vote or certificate for a higher height has no effect until the node reaches that height, and then only if its signatures, voters and leader check out against the validator list of that height. Messages more than the fixed gap of heights or rounds ahead are dropped, so what remote parties can make the node store is bounded; messages within the gap from senders who qualify under both lists are not lost, unless another message for the same slot replaced them, and take effect when their height or round begins.",
 ["histories","inputs","configurations"],"all heights and rounds around the gap limits, validator lists that change with the height",
 "Needs messages sent ahead of time combined with a validator-set change; tests keep the list constant.",
 [PR,CO],[("future filter",PR+":filter_message, filter_signed_proposal"),("re-check at new height",PR+":goto_new_height, re_check_*")],
 observe=["reactions after a new height"])

prop("C18","A node outside the validator list stays silent until it is listed again",
 "While the validator list of the current height does not contain a node, it signs and sends nothing, commits nothing and reacts to no proposal, vote, certificate, choke or timeout. As soon as a status whose list contains it arrives, it takes part again from that status' height on, and leaving the list again silences it again.",
 ["histories","configurations","schedules"],"all membership histories over the bounded number of heights, all messages in between",
 "Tests never remove a running node from the list and bring it back.",
 [PR],[("membership flag",PR+":goto_new_height, run, handle_msg")],
 observe=["messages sent"])

prop("C19","A newer status moves the node to that height with a clean slate",
 "On a status with a higher height, from synchronisation or from its own commit, the node enters exactly that height at round zero with no lock, uses that status' validator list for every check and leader decision, and reuses nothing it learned at earlier heights: votes, certificates, chokes, locks and block-check results of the old height have no influence on the new one. A status that is not higher changes nothing.",
 ["histories","schedules","inputs"],"all old-height states within the bound, all target heights, validator lists that change",
 "Leftovers from a previous height only matter for specific later inputs, which tests do not produce.",
 [PR,SM],[("height switch",PR+":goto_new_height; "+SM+":handle_new_height")],
 observe=["messages sent after the status"])

prop("C20","Bitmap and voters are interpreted identically everywhere",
 "The public voter-extraction helper returns, for every validator list in any order and every bitmap, exactly the validators whose position in the address-sorted list is set, and this is the set whose weight and signatures a node checks when it receives a certificate with that bitmap, and the set it encodes when it builds one. Bits beyond the list mark nobody.",
 ["inputs","configurations"],"all bitmaps and list permutations within the size bound",
 "A unit test compares one random bitmap; consistency between builder, verifier and helper is not tested.",
 [AU,PA,PR],[("helper",AU+":extract_voters"),("verifier",AU+":get_voters"),("builder",PR+":generate_qc")],
 observe=["extract_voters","arguments of aggregate verification and aggregation"])

prop("C21","With timely messages a node does its part and every height commits",
 "A listed node that is up does its part in every height and round it enters, whatever happened to it before: as a follower it sends the scheduled leader its prevote for the proposal (for its lock if it has one) and its precommit once the block has a prevote certificate and passed its check; as the leader it proposes, certifies the votes of more than two thirds and commits; a precommit certificate for a checked block is committed in whatever order proposal, check result and certificates come, and the next height begins. If nothing comes in time it votes for no block (or its lock), chokes, repeats the choke, and leaves the round once there is evidence to do so.",
 ["histories","schedules","crash points","inputs"],"all states a node can be in within the bound when it enters a round, all orders of what the round brings, every validator as leader",
 "Progress tests run healthy rounds from a fresh start; a node that stops voting or leading after a special past (it led before, was locked, restarted, timed out) is only seen when just that past is followed by a round that needs it.",
 [PR,SM,OV],[("votes to the leader",PR+":transmit, handle_vote_event"),("votes for what is stored",PR+":vote_process"),("leader's round",PR+":goto_new_round"),("timeouts",SM+":handle_prevote, handle_precommit, handle_brake_timeout"),("chokes",PR+":handle_brake")],
 observe=["votes, proposals, certificates and chokes sent","commits","write-ahead log"])

prop("C22","A choke carries the evidence that brings other nodes to its round",
 "Every choke a node broadcasts is signed by it over its height and round and, for every round but the first, carries what brought the height to that round: a valid prevote certificate, precommit certificate for no block or aggregated choke of the round before, for this height. The write-ahead log keeps this evidence, so chokes sent after a crash and restart carry it as well. A node of the height that is behind and receives such a choke enters the choke's round (for a prevote certificate: if its round is before the certificate's, and the certificate's block, if any, passed its check).",
 ["histories","crash points","inputs"],"all ways into a round and back after a crash within the bound, every lower round of the receiver",
 "The tests run nodes that start together; that a choke's evidence is stale or missing only shows when a node falls behind and has to follow by it.",
 [PR,SM,CO],[("evidence",PR+":set_update_from"),("choke",PR+":handle_brake"),("restart",PR+":start_with_wal"),("receiver",PR+":handle_signed_choke, handle_aggregated_choke")],
 observe=["chokes sent","write-ahead log"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
