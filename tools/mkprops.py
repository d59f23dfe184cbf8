#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Signing threshold is the two-thirds threshold of the committee",
 "For every committee size n >= 1 the threshold t used for keygen, keysign, share confirmation and party formation is the one for which t+1 members are the smallest group of at least two thirds of the committee (t = ceil(2n/3) - 1), and a negative size is refused with an error.",
 ["inputs"], "every committee size within the stated bound",
 "The tests evaluate three or four committee sizes; floating-point rounding can go wrong at any single n.",
 ["conversion/conversion.go", "tss/keysign.go", "tss/keygen.go", "keysign/tss_keysign.go", "keygen/tss_keygen.go", "common/tss.go"],
 [("GetThreshold", "conversion/conversion.go"), ("KeySign", "tss/keysign.go"), ("SignMessage", "keysign/tss_keysign.go"), ("GenerateNewKey", "keygen/tss_keygen.go"), ("ProcessOneMessage", "common/tss.go")])

prop("C02", "Leader election is a deterministic choice all members agree on",
 "For every request id, block height and non-empty list of member ids, all members that hold the same set of ids elect the same leader whatever order each lists them in, the leader is one of the listed members, and it changes with the request id and block height only through the documented hash ranking. An empty member list, an empty request id or height 0 yields an error instead of a leader.",
 ["inputs"], "all request ids, heights, member ids and list orders within the size bound; all possible hash rankings",
 "The unit test checks one hard-coded list; agreement under permutation for all hash rankings is a universally quantified statement.",
 ["p2p/leader_provider.go"], [("LeaderNode", "p2p/leader_provider.go")])

prop("C03", "Only shares signed by their owner for this session are acted on",
 "A protocol share received from the network takes effect (is handed to a signing or key-generation party, is cached, is announced to others, or is recorded as evidence or as accepted) only if it carries a valid signature by the member it names as sender, over exactly its content and this session's id. Every part of a batched share is attributed to the member that signed the batch, and to nobody else.",
 ["inputs", "histories"], "every inbound message structure over all sender names, payload routings, signatures and session ids within the bound",
 "Tests send well-formed shares from honest parties; forged inner routing or cross-session replays are never sent.",
 ["common/tss.go", "common/tss_helper.go"],
 [("processTSSMsg", "common/tss.go"), ("updateLocal", "common/tss.go"), ("verifySignature", "common/tss_helper.go")])

prop("C04", "A broadcast share is applied only after a quorum confirms it",
 "A broadcast share is applied only when at least the threshold number of parties - this node and distinct committee members other than the share's owner, one vote each - have reported a hash for it, and the hash this node computed is the most frequently reported one with at least threshold-1 reports. A confirmation by the owner, or reports that do not agree, never lead to application.",
 ["histories", "inputs"], "all sequences of share and confirmation messages up to the bound, from any peers, with any hashes, in any order and with any map iteration order",
 "Tests deliver one fixed order of confirmations for four parties.",
 ["common/tss.go", "common/local_cache_item.go", "common/tss_helper.go"],
 [("ProcessOneMessage", "common/tss.go"), ("hashCheck", "common/tss.go"), ("getHighestFreq", "common/tss_helper.go"), ("applyShare", "common/tss.go")],
 [("unConfirmedMessages", "shares awaiting confirmation", "common/tss.go")])

prop("C05", "Each share is applied at most once per party, round and message",
 "Whatever duplicates, replays or batches arrive, in any order, each signing or key-generation instance is handed at most one accepted share per sender and round, it goes to the instance named by the share's message identifier, and the record of accepted shares lists each sender once per round and message.",
 ["histories", "schedules"], "all sequences of (possibly duplicated) batched shares within the bound, all worker interleavings within the bound",
 "Tests deliver every share once or check a single replay; the workers' interleaving is never controlled.",
 ["common/tss.go", "blame/manager.go"],
 [("updateLocal", "common/tss.go"), ("doTssJob", "common/tss.go"), ("CheckMsgDuplication", "blame/manager.go"), ("UpdateAcceptShare", "blame/manager.go")],
 [("acceptedShares", "senders accepted per round and message", "blame/manager.go")])

prop("C06", "Malformed session messages are refused without crashing or stalling",
 "No message a peer can send in a keygen or keysign session - any message type, missing or null fields, unknown parties, undecodable payloads, batches with missing routing or unknown instances, messages that arrive while a session ends or for a session that is over, party-forming messages of any content at any time - makes the node panic, block forever or leave worker goroutines behind; such a message is refused with an error or ignored.",
 ["inputs"], "every message structure with each optional part present or absent and every id known or unknown",
 "Fuzz-free unit tests only send shapes that the sender code produces.",
 ["common/tss.go", "common/tss_helper.go", "p2p/communication.go", "p2p/party_coordinator.go"],
 [("ProcessOneMessage", "common/tss.go"), ("processTSSMsg", "common/tss.go"), ("updateLocal", "common/tss.go"), ("ProcessInboundMessages", "common/tss.go"), ("readFromStream", "p2p/communication.go")])

prop("C07", "An invalid share is blamed on its signer together with the evidence",
 "When a share fails cryptographic verification, exactly the parties the protocol library names as culprits are blamed, each with the signed message of that round that this node stored from that same party (blank if none), and later shares from a culprit are refused. When the hash check fails, exactly the owner of the share is blamed, with that share and signature as evidence, and the share is not applied.",
 ["inputs", "histories"], "all culprit sets, stored-message sets and map orders within the bound",
 "Tests check single culprits with one fixed stored message.",
 ["common/tss.go", "blame/policy.go", "blame/blame.go", "blame/round_mgr.go"],
 [("processInvalidMsgBlame", "common/tss.go"), ("applyShare", "common/tss.go"), ("TssWrongShareBlame", "blame/policy.go")])

prop("C08", "Timeout blame names exactly the members not heard from",
 "When a session times out on a round, the blame computed from the last unicast messages (or, for a broadcast round, from the stored broadcast shares of that round) names exactly the committee members other than this node from which no message of that round was received; when nothing at all was received for the round nobody is blamed (an empty list or an error), and this node never blames itself.",
 ["histories", "inputs"], "all sets of senders heard from per round and all map orders within the bound",
 "Tests check one fixed subset of peers.",
 ["blame/policy.go", "blame/policy_helper.go", "blame/manager.go", "blame/round_mgr.go", "keysign/tss_keysign.go", "keygen/tss_keygen.go"],
 [("processKeySign", "keysign/tss_keysign.go"), ("processKeyGen", "keygen/tss_keygen.go"), ("GetUnicastBlame", "blame/policy.go"), ("GetBroadcastBlame", "blame/policy.go"), ("getBlamePubKeysNotInList", "blame/policy_helper.go")])

prop("C09", "Missing-share blame names the members whose share is missing first",
 "When a session ends with shares missing, then for every message of the batch that has recorded shares, the members blamed are exactly those - never this node - whose share is missing in the first incomplete round of that message; a message with all rounds complete adds nobody, and the result does not depend on the order in which messages are examined.",
 ["histories", "inputs"], "all sets of accepted shares over the rounds, members and batch messages within the bound; all map orders",
 "The test uses one message id and two rounds; interference between messages of a batch cannot show there.",
 ["blame/policy.go", "blame/policy_helper.go", "blame/manager.go", "common/tss.go"],
 [("TssMissingShareBlame", "blame/policy.go"), ("UpdateAcceptShare", "blame/manager.go"), ("updateLocal", "common/tss.go")])

prop("C10", "Party-formation failure blames exactly the absent members",
 "When the parties fail to gather, the nodes blamed are exactly the requested public keys whose peer was not online, each once per listed key, in the order requested, and a malformed public key yields an error rather than a wrong blame.",
 ["inputs"], "all key lists and online sets within the bound",
 "Tests check one list with all or none online.",
 ["blame/policy.go", "conversion/key_provider.go"],
 [("NodeSyncBlame", "blame/policy.go"), ("GetPeerIDFromPubKey", "conversion/key_provider.go")])

prop("C11", "Outgoing shares are batched completely, signed and addressed correctly",
 "Every share produced by the protocol library leaves the node exactly once, in one batch per round and destination that is sent as soon as the shares of all concurrent messages for it are present and not before; the batch carries each share with its own message identifier, is signed by this node over its content and the session id, and goes to exactly the peers the shares are addressed to (all session peers for a broadcast).",
 ["histories", "inputs"], "all interleavings of outgoing shares over rounds, destinations and messages within the bound",
 "Tests only send one share per call with batch size one, or run whole protocols where loss shows as a timeout.",
 ["common/tss.go"],
 [("ProcessOutCh", "common/tss.go"), ("sendBulkMsg", "common/tss.go")],
 [("cachedWireBroadcastMsgLists", "pending broadcast shares", "common/tss.go"), ("cachedWireUnicastMsgLists", "pending unicast shares", "common/tss.go")])

prop("C12", "Every signature is returned with the message it signs",
 "For a batch keysign, the response contains one entry per requested message, each pairing a message with the signature produced for that very message - never a signature of another message of the batch - for every order in which the messages were requested and the signing instances finished.",
 ["inputs", "schedules"], "all message values and completion orders within the bound",
 "Tests sign a handful of fixed messages; an order-dependent mispairing needs specific message values and completion orders.",
 ["tss/keysign.go", "keysign/tss_keysign.go"],
 [("batchSignatures", "tss/keysign.go"), ("processKeySign", "keysign/tss_keysign.go"), ("SignMessage", "keysign/tss_keysign.go")])

prop("C13", "A non-signer accepts only the complete, verified signature set",
 "A node waiting for signatures made by others accepts a received set only if it has exactly one signature per requested message and each verifies under the pool key for the corresponding message; anything else is refused without a crash and the node keeps waiting. An accepted set is delivered to the waiter of that request only, unchanged. Signers send every other participant their complete set, or a failure notice when they failed, and an unreachable or silent peer does not hold up the others.",
 ["inputs", "histories"], "all received sets up to the bound: any length, nil entries, any validity pattern, any order of arrivals",
 "Tests send one valid and one invalid set of the right length.",
 ["keysign/notifier.go", "keysign/signature_notifier.go"],
 [("ProcessSignature", "keysign/notifier.go"), ("handleStream", "keysign/signature_notifier.go"), ("WaitForSignature", "keysign/signature_notifier.go"), ("BroadcastSignature", "keysign/signature_notifier.go")])

prop("C14", "All participants derive the same, request-specific message id",
 "The session id derived from a keygen or keysign request does not depend on the order in which keys, signers or messages are listed, does not alter the request's set of keys or messages, and differs between keygen requests with different keys and between keysign requests with different messages or signers, as well as between a keygen and a keysign request; an unknown request type yields an error.",
 ["inputs"], "all key and message lists within the bound and all their permutations",
 "Tests compute one id per request type and never permute.",
 ["tss/tss.go"],
 [("requestToMsgId", "tss/tss.go"), ("MsgToHashString", "common/tss_helper.go")])

prop("C15", "An inbound message reaches exactly the session that subscribed to it",
 "A network message is delivered once, with its sender and payload unchanged, to the channel currently subscribed for its exact message type and session id, and to no other; after cancelling, nothing more is delivered for that pair while all other subscriptions keep working; messages that cannot be decoded or have no subscriber are dropped.",
 ["histories", "inputs"], "all sequences of subscribe, cancel and receive operations within the bound",
 "Tests subscribe and cancel one topic.",
 ["p2p/communication.go", "p2p/message_id_subscriber.go"],
 [("SetSubscribe", "p2p/communication.go"), ("getSubscriber", "p2p/communication.go"), ("CancelSubscribe", "p2p/communication.go"), ("readFromStream", "p2p/communication.go"), ("MessageIDSubscriber", "p2p/message_id_subscriber.go")],
 [("subscribers", "message type -> session id -> channel", "p2p/communication.go")])

prop("C16", "Stream framing round-trips every message and refuses bad frames",
 "Whatever message is written to a stream, the reader gets exactly those bytes, however the transport fragments reads and writes; a frame announcing more than the maximum payload, a truncated header or body, or a failed or short write is reported as an error, never as a shorter or altered message.",
 ["inputs", "fault_sequences"], "all payloads and headers, all read fragmentations, truncation points and write faults within the bound",
 "Tests use a mock stream that returns everything in one read.",
 ["p2p/stream_helper.go"],
 [("ReadStreamWithBuffer", "p2p/stream_helper.go"), ("WriteStreamWithBuffer", "p2p/stream_helper.go")])

prop("C17", "Leader-based party formation yields one agreed set of real members",
 "The leader releases the parties only when the required number of distinct listed members has asked to join - unlisted or repeated requests never count - and tells every other listed peer the outcome once with the same list, which it also uses itself; a member takes the list only from the leader it elected, and forms a party with it only if it names at least the required number of distinct listed members and nobody else. On timeout the formation fails with an error and reports only members that were really online.",
 ["histories", "schedules", "inputs"], "all sequences of join requests and leader responses from any peers within the bound, timeout at any point",
 "Tests run timing-dependent happy paths with fixed peers.",
 ["p2p/peer_status.go", "p2p/party_coordinator.go"],
 [("updatePeer", "p2p/peer_status.go"), ("joinPartyLeader", "p2p/party_coordinator.go"), ("joinPartyMember", "p2p/party_coordinator.go"), ("processRespMsg", "p2p/party_coordinator.go"), ("processReqMsg", "p2p/party_coordinator.go")],
 [("peersResponse", "who asked to join", "p2p/peer_status.go")])

prop("C18", "Leaderless party formation succeeds only with every listed peer",
 "Without a leader, joining succeeds only when every listed peer has announced itself for this very request; otherwise it fails by timeout and returns exactly this node and the listed peers that did announce themselves, so nobody who was online is blamed as absent. The node announces itself to every listed peer, and again before it returns to each that came online meanwhile. Announcements by unlisted peers or for other requests have no effect.",
 ["histories", "schedules"], "all arrival sets, senders and request ids within the bound, timeout at any point",
 "Tests cover two fixed arrival patterns with real timers.",
 ["p2p/party_coordinator.go", "p2p/peer_status.go"],
 [("JoinPartyWithRetry", "p2p/party_coordinator.go"), ("HandleStream", "p2p/party_coordinator.go"), ("createJoinPartyGroups", "p2p/party_coordinator.go"), ("getPeersStatus", "p2p/peer_status.go")])

prop("C19", "A saved key share is retrieved exactly and survives crashes",
 "Once a key-generation result is saved, retrieving it by its public key returns exactly that state (keys, participants, local party and share data), also after other keys are saved; an unknown or malformed public key yields an error and touches no file outside the state folder. A crash at any point of a later save never loses the state that was there before: retrieval gives the old state or the new one, never a damaged one.",
 ["inputs", "crash_points"], "all states, keys and save sequences within the bound; every crash point of the file operations",
 "Tests save and load once with no crash and with well-formed keys.",
 ["storage/localstate_mgr.go"],
 [("SaveLocalState", "storage/localstate_mgr.go"), ("GetLocalState", "storage/localstate_mgr.go"), ("getFilePathName", "storage/localstate_mgr.go")])

prop("C20", "The peer address book round-trips and survives crashes",
 "Saving the known peer addresses and reading them back yields every peer with each of its addresses that is not a loopback address (IPv4 or IPv6) exactly once and nothing else; unreadable content is reported as an error or skipped, never turned into a different address. A crash at any point of saving leaves the previous or the new address book, never a damaged one.",
 ["inputs", "crash_points"], "all address maps within the bound, all map orders, every crash point of the file operations",
 "The test saves and reads one fixed map.",
 ["storage/localstate_mgr.go", "p2p/peer_address.go"],
 [("SaveAddressBook", "storage/localstate_mgr.go"), ("RetrieveP2PAddresses", "storage/localstate_mgr.go"), ("ExportPeerAddress", "p2p/peer_address.go")])

prop("C21", "Streams of a finished session are released exactly once, others stay",
 "Releasing a session, as every answered request does, resets exactly the streams registered under that session's id and those of unknown sessions, each stream is reset once and forgotten, streams registered under other ids are not touched, and a stream that is added while a release is in progress is never lost: it is reset by that release or by the next one.",
 ["histories", "schedules"], "all sequences of add and release within the bound and all their interleavings",
 "Tests run one add/release sequence in one goroutine.",
 ["p2p/stream_helper.go", "tss/keygen.go", "tss/keysign.go"],
 [("AddStream", "p2p/stream_helper.go"), ("ReleaseStream", "p2p/stream_helper.go"), ("Keygen", "tss/keygen.go"), ("KeySign", "tss/keysign.go")],
 [("unusedStreams", "session id -> open streams", "p2p/stream_helper.go")])

prop("C22", "The HTTP API forwards requests faithfully and reports failures",
 "A keygen or keysign POST with a decodable body leads to exactly one call of the TSS server with exactly the fields of the body, and the reply carries exactly the server's response: with status 200 when the server succeeded, and when it failed never a reply that presents the failure as a success - the response's own status field is passed on unchanged for keygen, and a keysign error is answered with a 5xx status. A wrong method is refused with a 4xx status and an undecodable body with 400, in both cases without calling the server.",
 ["inputs"], "all methods, decodable and undecodable bodies, server results and errors within the bound",
 "Tests check a few hand-written requests per handler.",
 ["cmd/tss/tss_http.go"],
 [("keygenHandler", "cmd/tss/tss_http.go"), ("keySignHandler", "cmd/tss/tss_http.go"), ("getP2pIDHandler", "cmd/tss/tss_http.go")])

prop("C23", "All members derive the same parties from the same set of keys",
 "From the same set of distinct public keys, listed in any order, every member derives the same ordered parties with the same identifiers, one per key; its own party is the one for its own key, which must be listed or an error results, and the maps between party, peer id and public key are one-to-one and inverse to each other. A malformed key yields an error.",
 ["inputs"], "all key lists and orders within the bound",
 "Tests use one fixed list of four keys.",
 ["conversion/conversion.go", "conversion/key_provider.go"],
 [("GetParties", "conversion/conversion.go"), ("SetupPartyIDMap", "conversion/conversion.go"), ("SetupIDMaps", "conversion/conversion.go"), ("GetPeersID", "conversion/conversion.go"), ("PartyIDtoPubKey", "conversion/conversion.go")])

prop("C24", "The join protocol is selected by numeric version order",
 "A request's version is compared with the leader-protocol version as semantic versions, component by component as numbers: the older join protocol is used exactly for lower versions, the leader-based one for equal or higher ones, and a malformed version is an error that starts no join at all.",
 ["inputs"], "all version strings within the bound",
 "Tests compare a few fixed versions.",
 ["conversion/tss_helper.go", "tss/tss.go", "messages/version.go"],
 [("VersionLTCheck", "conversion/tss_helper.go"), ("joinParty", "tss/tss.go")])

prop("C25", "A session is finished exactly when every other member reported done",
 "The completion signal of a session fires exactly once, when every other committee member has reported its task done, however often and in whatever order reports arrive; peers outside the committee do not count, and repeated reports are refused without effect and never crash the node. Each member in turn reports itself done to every other member once, when and only when its own results are complete.",
 ["histories"], "all sequences of done reports within the bound; all orders in which results and reports appear",
 "Tests deliver one fixed sequence.",
 ["common/tss.go", "keysign/tss_keysign.go", "keygen/tss_keygen.go"],
 [("ProcessOneMessage", "common/tss.go"), ("processKeySign", "keysign/tss_keysign.go"), ("processKeyGen", "keygen/tss_keygen.go"), ("NotifyTaskDone", "common/tss.go")],
 [("finishedPeers", "peers that reported done", "common/tss.go")])

prop("C26", "A keysign or keygen request ends with a truthful status",
 "A request is answered with success only if the key or the signatures of every requested message were actually produced or received and verified; every failure - party formation, protocol failure or timeout, too few signers, signers without a share of the key, missing local state, undecodable messages - is answered with a failure status or an error, with the parties at fault named where they are known, and the session's subscriptions are cancelled whatever the outcome.",
 ["fault_sequences", "inputs"], "all outcomes of the sub-steps (join, sign, wait, broadcast, storage) within the bound",
 "The tests of this package are end-to-end happy paths plus a few timeouts and take minutes.",
 ["tss/keysign.go", "tss/keygen.go"],
 [("KeySign", "tss/keysign.go"), ("generateSignature", "tss/keysign.go"), ("Keygen", "tss/keygen.go")])

prop("C27", "Outgoing messages reach every addressee once and unchanged",
 "Every message a session hands to the network layer is written once, as one whole frame with exactly its type, session id and payload, to a stream of each addressee other than this node itself. An addressee that cannot be reached, never answers or breaks the stream keeps neither the other addressees nor later messages waiting. The streams are released with their session, and stopping the node waits for the messages under way and leaves nothing running.",
 ["inputs", "fault_sequences", "schedules"], "all messages, addressee sets and per-peer faults within the bound",
 "Tests broadcast between four healthy local nodes.",
 ["p2p/communication.go"],
 [("ProcessBroadcast", "p2p/communication.go"), ("broadcastToPeers", "p2p/communication.go"), ("writeToStream", "p2p/communication.go")])

prop("C28", "A node joins through any reachable bootstrap peer",
 "At start every bootstrap peer, configured or saved by an earlier key generation, is tried at its listed address; connecting succeeds exactly when there is none or at least one was reached, and the connectivity check passes exactly when there is none or at least one answers a ping correctly. A peer that refuses, breaks the stream or never answers does not delay or spoil the others; an address that names no peer is reported or skipped, never taken for another peer.",
 ["fault_sequences", "inputs"], "all combinations of per-peer outcomes and addresses within the bound",
 "Tests connect to one or two bootstrap nodes that are up.",
 ["p2p/communication.go"],
 [("connectToBootstrapPeers", "p2p/communication.go"), ("bootStrapConnectivityCheck", "p2p/communication.go"), ("NewTss", "tss/tss.go")])

prop("C29", "A broadcast share a member missed is fetched from those that have it",
 "When a node lacks a broadcast share, or holds another version of it than the members report, and some hash is reported by enough members (threshold-1), it asks exactly the members that reported the most frequent hash, for exactly that share of this session. A member that is asked answers the asking peer only, with exactly the signed share it applied, or not at all if it applied none. An answer is used once and only if it was asked for, and is applied under the same conditions as a share that came directly from its owner.",
 ["histories", "inputs"], "all sequences of reports, arrivals and answers within the bound",
 "The tests call the request and reply helpers separately with fixed messages; they never let one node recover a share through another, nor check whom it asks.",
 ["common/tss.go", "common/tss_helper.go", "blame/share_mgr.go", "blame/round_mgr.go"],
 [("requestShareFromPeer", "common/tss.go"), ("processRequestMsgFromPeer", "common/tss_helper.go"), ("QueryAndDelete", "blame/share_mgr.go")])

prop("C30", "The node's key and the pool's key are taken over exactly",
 "The private key given to a node is taken over exactly - the first 32 bytes of the hexadecimal text its base64 form holds - and a text that is not base64, not hexadecimal or too short, or a key of another kind, is refused with an error and never crashes the node; its public key, peer identity and raw bytes all belong to that very key. The pool public key and address reported for a generated group point are those of exactly that point, whatever the size and parity of its coordinates, and a missing point or one off the curve is refused.",
 ["inputs"], "every key text and every point within the bound",
 "The tests convert one fixed key and one fixed point.",
 ["conversion/key_provider.go", "conversion/conversion.go"],
 [("GetPriKey", "conversion/key_provider.go"), ("GetPriKeyRawBytes", "conversion/key_provider.go"), ("GetTssPubKey", "conversion/conversion.go")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
