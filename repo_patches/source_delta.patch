From 4f6cf892963a797eaaf8a0322a95ec58669d0838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:29 +0000
Subject: [PATCH 01/21] fix: release unknown streams once and do not lose
 streams added during a release

---
 p2p/stream_helper.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/p2p/stream_helper.go b/p2p/stream_helper.go
index 38d3759..5257f0d 100644
--- a/p2p/stream_helper.go
+++ b/p2p/stream_helper.go
@@ -39,21 +39,19 @@ func NewStreamMgr() *StreamMgr {
 }
 
 func (sm *StreamMgr) ReleaseStream(msgID string) {
-	sm.streamLocker.RLock()
-	usedStreams, okStream := sm.unusedStreams[msgID]
-	unknownStreams, okUnknown := sm.unusedStreams["UNKNOWN"]
-	sm.streamLocker.RUnlock()
-	streams := append(usedStreams, unknownStreams...)
-	if okStream || okUnknown {
-		for _, el := range streams {
-			err := el.Reset()
-			if err != nil {
-				sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
-			}
+	// take the streams out of the manager in one step, so that none is released twice
+	// and a stream added from now on is kept for the next release
+	sm.streamLocker.Lock()
+	streams := sm.unusedStreams[msgID]
+	delete(sm.unusedStreams, msgID)
+	streams = append(streams, sm.unusedStreams["UNKNOWN"]...)
+	delete(sm.unusedStreams, "UNKNOWN")
+	sm.streamLocker.Unlock()
+	for _, el := range streams {
+		err := el.Reset()
+		if err != nil {
+			sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
 		}
-		sm.streamLocker.Lock()
-		delete(sm.unusedStreams, msgID)
-		sm.streamLocker.Unlock()
 	}
 }
 
-- 
2.43.0


From 31dea0b4c3f19b05ccfc932b3a5c58ed17f28cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 02/21] fix: leaderless join must not succeed while a listed
 peer is missing

---
 p2p/party_coordinator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 4c0836a..8736f3f 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -545,11 +545,11 @@ func (pc *PartyCoordinator) JoinPartyWithRetry(msgID string, peers []string) ([]
 	}()
 
 	wg.Wait()
-	onlinePeers, _ := peerGroup.getPeersStatus()
+	onlinePeers, offlinePeers := peerGroup.getPeersStatus()
 	pc.sendRequestToAll(msgID, msgSend, onlinePeers)
 	// we always set ourselves as online
 	onlinePeers = append(onlinePeers, pc.host.ID())
-	if len(onlinePeers) == len(peers) {
+	if len(offlinePeers) == 0 {
 		return onlinePeers, nil
 	}
 	return onlinePeers, ErrJoinPartyTimeout
-- 
2.43.0


From 53a65e8b6b2152801b2a3522efff49918bffeda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 03/21] fix: missing-share blame must treat every message on
 its own and ignore complete ones

Peers found for one message were carried over to the next, so a missing share
could go unblamed; a message with all rounds complete blamed every member; and
a share of a round the protocol does not have crashed the node.
---
 blame/policy.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/blame/policy.go b/blame/policy.go
index a580d04..a9f9b67 100644
--- a/blame/policy.go
+++ b/blame/policy.go
@@ -135,10 +135,13 @@ func (m *Manager) TssWrongShareBlame(wiredMsg *messages.WireMessage) (string, er
 func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	acceptedShareForMsg := make(map[string][][]string)
 	var blameNodes []Node
-	var peers []string
 	isUnicast := false
 	m.acceptShareLocker.Lock()
 	for roundInfo, value := range m.acceptedShares {
+		if roundInfo.Index >= rounds {
+			// not a round of this protocol
+			continue
+		}
 		cachedShares, ok := acceptedShareForMsg[roundInfo.MsgIdentifier]
 		if !ok {
 			cachedShares := make([][]string, rounds)
@@ -151,11 +154,14 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	m.acceptShareLocker.Unlock()
 
 	for _, cachedShares := range acceptedShareForMsg {
+		var peers []string
+		missing := false
 		// we search from the first round to find the missing
 		for index, el := range cachedShares {
 			if len(el)+1 == len(m.PartyIDtoP2PID) {
 				continue
 			}
+			missing = true
 			// we find whether the missing share is in unicast
 			if rounds == messages.TSSKEYGENROUNDS {
 				// we are processing the keygen and if the missing shares is in second round(index=1)
@@ -181,6 +187,9 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 			}
 			break
 		}
+		if !missing {
+			continue
+		}
 		blamePubKeys, err := m.getBlamePubKeysNotInList(peers)
 		if err != nil {
 			return nil, isUnicast, err
-- 
2.43.0


From 6c5eb7b1f496dbdfe784b7ff63171d9ee33f5a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:19 +0000
Subject: [PATCH 04/21] fix: a signature notification must carry exactly one
 signature per message

---
 keysign/notifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keysign/notifier.go b/keysign/notifier.go
index dd4feed..25cc10d 100644
--- a/keysign/notifier.go
+++ b/keysign/notifier.go
@@ -63,6 +63,10 @@ func (n *Notifier) ProcessSignature(data []*common.ECSignature) (bool, error) {
 	// when data is nil , which means keysign  failed, there is no signature to be verified in that case
 	// for gg20, it wrap the signature R,S into ECSignature structure
 	if len(data) != 0 {
+		// a valid notification carries exactly one signature for each message
+		if len(data) != len(n.messages) {
+			return false, fmt.Errorf("expect %d signatures, received %d", len(n.messages), len(data))
+		}
 
 		for i := 0; i < len(data); i++ {
 			eachSig := data[i]
-- 
2.43.0


From 4542ee92e108583f909ec203e9e0e334548d9ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 05/21] fix: do not crash or leak workers on shares with
 missing routing or unusable batches

---
 common/tss.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index 07066a5..922a588 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -221,9 +221,14 @@ func (t *TssCommon) processInvalidMsgBlame(roundInfo string, round blame.RoundIn
 	return fmt.Errorf("fail to set bytes to local party: %w", err)
 }
 
+// hasSender tells whether the routing info received from the network names a sender
+func hasSender(r *btss.MessageRouting) bool {
+	return r != nil && r.From != nil && r.From.MessageWrapper_PartyID != nil
+}
+
 // updateLocal will apply the wireMsg to local keygen/keysign party
 func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
-	if wireMsg == nil || wireMsg.Routing == nil || wireMsg.Routing.From == nil {
+	if wireMsg == nil || !hasSender(wireMsg.Routing) {
 		t.logger.Warn().Msg("wire msg is nil")
 		return errors.New("invalid wireMsg")
 	}
@@ -231,9 +236,9 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 	if partyInfo == nil {
 		return nil
 	}
-	partyID, ok := partyInfo.PartyIDMap[wireMsg.Routing.From.Id]
+	_, ok := partyInfo.PartyIDMap[wireMsg.Routing.From.Id]
 	if !ok {
-		return fmt.Errorf("get message from unknown party %s", partyID.Id)
+		return fmt.Errorf("get message from unknown party %s", wireMsg.Routing.From.Id)
 	}
 
 	dataOwnerPeerID, ok := t.PartyIDtoP2PID[wireMsg.Routing.From.Id]
@@ -253,14 +258,12 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		return err
 	}
 
-	worker := runtime.NumCPU()
-	tssJobChan := make(chan *tssJob, len(bulkMsg))
-	jobWg := sync.WaitGroup{}
-	for i := 0; i < worker; i++ {
-		jobWg.Add(1)
-		go t.doTssJob(tssJobChan, &jobWg)
-	}
+	var jobs []*tssJob
 	for _, msg := range bulkMsg {
+		if !hasSender(msg.Routing) {
+			t.logger.Error().Msg("the share in the batch has no routing info")
+			return errors.New("invalid share routing")
+		}
 		data, ok := partyInfo.PartyMap.Load(msg.MsgIdentifier)
 		if !ok {
 			t.logger.Error().Msg("cannot find the party to this wired msg")
@@ -304,6 +307,18 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		}
 		t.culpritsLock.RUnlock()
 		job := newJob(localMsgParty, msg.WiredBulkMsgs, round.MsgIdentifier, partyID, msg.Routing.IsBroadcast)
+		jobs = append(jobs, job)
+	}
+
+	// the workers start only once the whole batch is known to be usable, so they always see the end of the jobs
+	worker := runtime.NumCPU()
+	tssJobChan := make(chan *tssJob, len(jobs))
+	jobWg := sync.WaitGroup{}
+	for i := 0; i < worker; i++ {
+		jobWg.Add(1)
+		go t.doTssJob(tssJobChan, &jobWg)
+	}
+	for _, job := range jobs {
 		tssJobChan <- job
 	}
 	close(tssJobChan)
@@ -735,7 +750,7 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 	t.logger.Debug().Msg("process wire message")
 	defer t.logger.Debug().Msg("finish process wire message")
 
-	if wireMsg == nil || wireMsg.Routing == nil || wireMsg.Routing.From == nil {
+	if wireMsg == nil || !hasSender(wireMsg.Routing) {
 		t.logger.Warn().Msg("received msg invalid")
 		return errors.New("invalid wireMsg")
 	}
-- 
2.43.0


From e5017bed7251a5252419d621d15d6d2eb7025370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 06/21] fix: a share must agree with the sender, kind and round
 of the batch that carries it

---
 common/tss.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index 922a588..a6007e7 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -246,11 +246,6 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		t.logger.Error().Msg("fail to find the peer ID of this party")
 		return errors.New("fail to find the peer")
 	}
-	// here we log down this peer as the latest unicast peer
-	if !wireMsg.Routing.IsBroadcast {
-		t.blameMgr.SetLastUnicastPeer(dataOwnerPeerID, wireMsg.RoundInfo)
-	}
-
 	var bulkMsg []BulkWireMsg
 	err := json.Unmarshal(wireMsg.Message, &bulkMsg)
 	if err != nil {
@@ -264,6 +259,11 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 			t.logger.Error().Msg("the share in the batch has no routing info")
 			return errors.New("invalid share routing")
 		}
+		// the signature of the batch speaks for its signer only
+		if msg.Routing.From.Id != wireMsg.Routing.From.Id || msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {
+			t.logger.Error().Msg("the share in the batch is not from the sender of the batch")
+			return errors.New("share routing differs from the routing of its batch")
+		}
 		data, ok := partyInfo.PartyMap.Load(msg.MsgIdentifier)
 		if !ok {
 			t.logger.Error().Msg("cannot find the party to this wired msg")
@@ -281,6 +281,10 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 			t.logger.Error().Err(err).Msg("broken tss share")
 			return err
 		}
+		if round.RoundMsg != wireMsg.RoundInfo {
+			t.logger.Error().Msgf("share of round %s in a batch of round %s", round.RoundMsg, wireMsg.RoundInfo)
+			return errors.New("share is not of the round its batch claims")
+		}
 
 		// we only allow a message be updated only once.
 		// here we use round + msgIdentifier as the key for the acceptedShares
@@ -310,6 +314,14 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		jobs = append(jobs, job)
 	}
 
+	if wireMsg.Routing.IsBroadcast {
+		// this is the evidence in case the share turns out to be wrong
+		t.blameMgr.GetRoundMgr().Set(wireMsg.GetCacheKey(), wireMsg)
+	} else {
+		// here we log down this peer as the latest unicast peer
+		t.blameMgr.SetLastUnicastPeer(dataOwnerPeerID, wireMsg.RoundInfo)
+	}
+
 	// the workers start only once the whole batch is known to be usable, so they always see the end of the jobs
 	worker := runtime.NumCPU()
 	tssJobChan := make(chan *tssJob, len(jobs))
@@ -602,7 +614,6 @@ func (t *TssCommon) applyShare(localCacheItem *LocalCacheItem, threshold int, ke
 		return blame.ErrHashCheck
 	}
 
-	t.blameMgr.GetRoundMgr().Set(key, localCacheItem.Msg)
 	if err := t.updateLocal(localCacheItem.Msg); nil != err {
 		return fmt.Errorf("fail to update the message to local party: %w", err)
 	}
-- 
2.43.0


From ddd9c378f0addd67158176cb228c8236b423bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:43 +0000
Subject: [PATCH 07/21] fix: only parties of the session confirm the hash of a
 share

---
 common/tss.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index a6007e7..1c89731 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -355,6 +355,16 @@ func (t *TssCommon) checkDupAndUpdateVerMsg(bMsg *messages.BroadcastConfirmMessa
 	return true
 }
 
+// isParty tells whether the peer is one of the parties of this session
+func (t *TssCommon) isParty(peerID string) bool {
+	for _, el := range t.PartyIDtoP2PID {
+		if el.String() == peerID {
+			return true
+		}
+	}
+	return false
+}
+
 func (t *TssCommon) ProcessOneMessage(wrappedMsg *messages.WrappedMessage, peerID string) error {
 	t.logger.Debug().Msg("start process one message")
 	defer t.logger.Debug().Msg("finish processing one message")
@@ -374,6 +384,10 @@ func (t *TssCommon) ProcessOneMessage(wrappedMsg *messages.WrappedMessage, peerI
 		if err := json.Unmarshal(wrappedMsg.Payload, &bMsg); nil != err {
 			return errors.New("fail to unmarshal broadcast confirm message")
 		}
+		// only the parties of this session have a vote on the hash
+		if !t.isParty(peerID) {
+			return fmt.Errorf("confirm message from peer %s that is not a party", peerID)
+		}
 		// we check whether this peer has already send us the VerMsg before update
 		ret := t.checkDupAndUpdateVerMsg(&bMsg, peerID)
 		if ret {
-- 
2.43.0


From 87600ab1abf9dd0e4d3d29960979413500f3ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 08/21] fix: apply a share that is repeated inside a batch only
 once

---
 common/tss.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index 1c89731..cd95019 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -254,6 +254,7 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 	}
 
 	var jobs []*tssJob
+	queued := make(map[blame.RoundInfo]bool)
 	for _, msg := range bulkMsg {
 		if !hasSender(msg.Routing) {
 			t.logger.Error().Msg("the share in the batch has no routing info")
@@ -290,7 +291,7 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		// here we use round + msgIdentifier as the key for the acceptedShares
 		round.MsgIdentifier = msg.MsgIdentifier
 		// if this share is duplicated, we skip this share
-		if t.blameMgr.CheckMsgDuplication(round, partyID.Id) {
+		if queued[round] || t.blameMgr.CheckMsgDuplication(round, partyID.Id) {
 			t.logger.Debug().Msgf("we received the duplicated message from party %s", partyID.Id)
 			continue
 		}
@@ -312,6 +313,7 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		t.culpritsLock.RUnlock()
 		job := newJob(localMsgParty, msg.WiredBulkMsgs, round.MsgIdentifier, partyID, msg.Routing.IsBroadcast)
 		jobs = append(jobs, job)
+		queued[round] = true
 	}
 
 	if wireMsg.Routing.IsBroadcast {
-- 
2.43.0


From efd05bfd64b70f32a0359b52701e9dffc6ff083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 09/21] fix: recognise a culprit by its id, every message of a
 batch has its own party objects

---
 common/tss.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index cd95019..72f51b3 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -298,7 +298,7 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 
 		partyInlist := func(el *btss.PartyID, l []*btss.PartyID) bool {
 			for _, each := range l {
-				if el == each {
+				if el.Id == each.Id {
 					return true
 				}
 			}
-- 
2.43.0


From 16b3906593a64042b5740429b126d45b03f2eb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 10/21] fix: a repeated share must not replace the evidence of
 the one that was applied

---
 common/tss.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index 72f51b3..87dcc92 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -317,7 +317,11 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 	}
 
 	if wireMsg.Routing.IsBroadcast {
-		// this is the evidence in case the share turns out to be wrong
+		// this is the evidence in case the share turns out to be wrong, a message whose shares are
+		// all there already must not replace it
+		if len(jobs) == 0 {
+			return nil
+		}
 		t.blameMgr.GetRoundMgr().Set(wireMsg.GetCacheKey(), wireMsg)
 	} else {
 		// here we log down this peer as the latest unicast peer
-- 
2.43.0


From d5773764239f6b8956d6d7574cdea364641f66cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 11/21] fix: C19 save key shares in one step so that a crash
 keeps the previous one

---
 storage/localstate_mgr.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/storage/localstate_mgr.go b/storage/localstate_mgr.go
index 67f026e..c5de7ae 100644
--- a/storage/localstate_mgr.go
+++ b/storage/localstate_mgr.go
@@ -74,6 +74,30 @@ func (fsm *FileStateMgr) getFilePathName(pubKey string) (string, error) {
 	return localFileName, nil
 }
 
+// writeFile replaces the content of a file in one step: a crash or a failure while it is written leaves the previous
+// content in place. The caller holds the write lock.
+func writeFile(filePathName string, buf []byte) error {
+	tmpName := filePathName + ".tmp"
+	f, err := os.OpenFile(tmpName, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o655)
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(buf)
+	if err == nil {
+		err = f.Sync()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmpName, filePathName)
+	}
+	if err != nil {
+		_ = os.Remove(tmpName)
+	}
+	return err
+}
+
 // SaveLocalState save the local state to file
 func (fsm *FileStateMgr) SaveLocalState(state KeygenLocalState) error {
 	buf, err := json.Marshal(state)
@@ -84,7 +108,9 @@ func (fsm *FileStateMgr) SaveLocalState(state KeygenLocalState) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filePathName, buf, 0o655)
+	fsm.writeLock.Lock()
+	defer fsm.writeLock.Unlock()
+	return writeFile(filePathName, buf)
 }
 
 // GetLocalState read the local state from file system
-- 
2.43.0


From a3c8346cae7a7ebd4155e5082dc08c241b3dddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 12/21] fix: C20 leave every loopback address out of the
 address book, not only 127.0.0.1

---
 storage/localstate_mgr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storage/localstate_mgr.go b/storage/localstate_mgr.go
index c5de7ae..2d17657 100644
--- a/storage/localstate_mgr.go
+++ b/storage/localstate_mgr.go
@@ -15,6 +15,7 @@ import (
 	"github.com/libp2p/go-libp2p-core/peer"
 	"github.com/libp2p/go-libp2p-peerstore/addr"
 	ma "github.com/multiformats/go-multiaddr"
+	manet "github.com/multiformats/go-multiaddr/net"
 
 	"gitlab.com/thorchain/tss/go-tss/conversion"
 )
@@ -147,7 +148,7 @@ func (fsm *FileStateMgr) SaveAddressBook(address map[peer.ID]addr.AddrList) erro
 	for peer, addrs := range address {
 		for _, addr := range addrs {
 			// we do not save the loopback addr
-			if strings.Contains(addr.String(), "127.0.0.1") {
+			if manet.IsIPLoopback(addr) {
 				continue
 			}
 			record := addr.String() + "/p2p/" + peer.String() + "\n"
-- 
2.43.0


From 2c3cce840a22920cf669d37770a3a1c317bb855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:08 +0000
Subject: [PATCH 13/21] fix: C20 save the address book in one step so that a
 crash keeps the previous one

---
 storage/localstate_mgr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/localstate_mgr.go b/storage/localstate_mgr.go
index 2d17657..262c8c8 100644
--- a/storage/localstate_mgr.go
+++ b/storage/localstate_mgr.go
@@ -160,7 +160,7 @@ func (fsm *FileStateMgr) SaveAddressBook(address map[peer.ID]addr.AddrList) erro
 	}
 	fsm.writeLock.Lock()
 	defer fsm.writeLock.Unlock()
-	return ioutil.WriteFile(filePathName, buf.Bytes(), 0o655)
+	return writeFile(filePathName, buf.Bytes())
 }
 
 func (fsm *FileStateMgr) RetrieveP2PAddresses() (addr.AddrList, error) {
-- 
2.43.0


From f87b1767000e2c51ebf543fc6ad11b2edc6006cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 14/21] fix: do not crash when a keysign times out before this
 node produced a share

The timeout path asked the last produced message for its type without
checking, as the keygen does, that there is one.
---
 keysign/tss_keysign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index cd2ebe9..2b79088 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -200,6 +200,10 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			if failReason == "" {
 				failReason = blame.TssTimeout
 			}
+			if lastMsg == nil {
+				tKeySign.logger.Error().Msg("fail to start the keysign, the last produced message of this node is none")
+				return nil, errors.New("timeout before shared message is generated")
+			}
 
 			tKeySign.tssCommonStruct.P2PPeersLock.RLock()
 			threshold, err := conversion.GetThreshold(len(tKeySign.tssCommonStruct.P2PPeers) + 1)
-- 
2.43.0


From 0bafcf2c0e2900ba2d32c66504ed8fc073ba50b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 15/21] fix: report failure when a non-signer receives no
 signature

KeySign answered with an unset status and no error when this node was not
an active signer and no valid signature arrived in time.
---
 tss/keysign.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tss/keysign.go b/tss/keysign.go
index b82391c..655678f 100644
--- a/tss/keysign.go
+++ b/tss/keysign.go
@@ -309,6 +309,8 @@ func (t *TssServer) KeySign(req keysign.Request) (keysign.Response, error) {
 	}
 	// for this round, we are not the active signer
 	if errors.Is(errGen, p2p.ErrSignReceived) || errors.Is(errGen, p2p.ErrNotActiveSigner) {
+		// neither did we receive the signature from the active signers
+		receivedSig.Status = common.Fail
 		t.updateKeySignResult(receivedSig, keysignTime)
 		return receivedSig, nil
 	}
-- 
2.43.0


From ecffcc7755c1ac58bc07d95442ca30b3f517efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:02 +0000
Subject: [PATCH 16/21] fix: refuse a keysign request without messages

The request was carried on to the signing party, which has no instance
then, and the node crashed on it.
---
 tss/keysign.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tss/keysign.go b/tss/keysign.go
index 655678f..8915c2c 100644
--- a/tss/keysign.go
+++ b/tss/keysign.go
@@ -188,6 +188,9 @@ func (t *TssServer) KeySign(req keysign.Request) (keysign.Response, error) {
 		Str("msg", strings.Join(req.Messages, ",")).
 		Msg("received keysign request")
 	emptyResp := keysign.Response{}
+	if len(req.Messages) == 0 {
+		return emptyResp, errors.New("no message to sign")
+	}
 	msgID, err := t.requestToMsgId(req)
 	if err != nil {
 		return emptyResp, err
-- 
2.43.0


From 4f0197eaaa1afc96d28ef9325f3978771f382a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 17/21] fix: refuse a party of strangers, repeated members or
 too few members from the leader

---
 p2p/party_coordinator.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 8736f3f..5b80288 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -323,7 +323,22 @@ func (pc *PartyCoordinator) sendMsgToPeer(msgBuf []byte, msgID string, remotePee
 	return nil
 }
 
-func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, threshold int, sigChan chan string) ([]peer.ID, error) {
+// checkParty makes sure that a party selected by the leader has every member once and only members that are listed
+func checkParty(party, listed []string) error {
+	members := make(map[string]bool, len(listed))
+	for _, el := range listed {
+		members[el] = true
+	}
+	for _, el := range party {
+		if !members[el] {
+			return fmt.Errorf("peer(%s) is repeated or not listed", el)
+		}
+		delete(members, el)
+	}
+	return nil
+}
+
+func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, peers []string, threshold int, sigChan chan string) ([]peer.ID, error) {
 	peerGroup, err := pc.createJoinPartyGroups(msgID, leader, []string{leader}, threshold)
 	if err != nil {
 		return nil, fmt.Errorf("fail to create join party:%w", err)
@@ -395,18 +410,23 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 	}
 
 	onlineNodes := peerGroup.getLeaderResponse().PeerIDs
-	// we trust the returned nodes returned by the leader, if tss fail, the leader
+	// we trust the selection of the leader among the listed peers, if tss fail, the leader
 	// also will get blamed.
 	pIDs, err := pc.getPeerIDs(onlineNodes)
 	if err != nil {
 		pc.logger.Error().Err(err).Msg("fail to parse peer id")
 		return nil, err
 	}
-	if len(pIDs) < threshold {
-		return pIDs, errors.New("not enough peer")
+	if err := checkParty(onlineNodes, peers); err != nil {
+		pc.logger.Error().Err(err).Msg("the leader selected an invalid party")
+		return nil, err
 	}
 
 	if peerGroup.getLeaderResponse().Type == messages.JoinPartyLeaderComm_Success {
+		// the leader is in the party as well, so need threshold +1
+		if len(pIDs) < threshold+1 {
+			return pIDs, errors.New("not enough peer")
+		}
 		return pIDs, nil
 	}
 	pc.logger.Error().Msg("leader response with join party timeout")
@@ -487,7 +507,7 @@ func (pc *PartyCoordinator) JoinPartyWithLeader(msgID string, blockHeight int64,
 		return onlines, leader, err
 	}
 	// now we are just the normal peer
-	onlines, err := pc.joinPartyMember(msgID, leader, threshold, signChan)
+	onlines, err := pc.joinPartyMember(msgID, leader, peers, threshold, signChan)
 	return onlines, leader, err
 }
 
-- 
2.43.0


From 001a9b1af0df107cc676eeeefe2fadd4d89bbc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 18/21] fix: refuse to sign with a signer who is repeated or
 holds no share of the key

---
 keysign/tss_keysign.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index 2b79088..4f62bbf 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -80,6 +80,21 @@ func (tKeySign *TssKeySign) startBatchSigning(keySignPartyMap *sync.Map, msgNum
 	return ret.Load()
 }
 
+// checkSigners makes sure that every signer holds a share of the key and is listed once
+func checkSigners(signers, participants []string) error {
+	holders := make(map[string]bool, len(participants))
+	for _, el := range participants {
+		holders[el] = true
+	}
+	for _, el := range signers {
+		if !holders[el] {
+			return fmt.Errorf("signer(%s) is repeated or does not hold a share of the key", el)
+		}
+		delete(holders, el)
+	}
+	return nil
+}
+
 // signMessage
 func (tKeySign *TssKeySign) SignMessage(msgsToSign [][]byte, localStateItem storage.KeygenLocalState, parties []string) ([]*tsslibcommon.ECSignature, error) {
 	partiesID, localPartyID, err := conversion.GetParties(parties, localStateItem.LocalPartyKey)
@@ -90,6 +105,9 @@ func (tKeySign *TssKeySign) SignMessage(msgsToSign [][]byte, localStateItem stor
 		tKeySign.logger.Info().Msgf("we are not in this rounds key sign")
 		return nil, nil
 	}
+	if err := checkSigners(parties, localStateItem.ParticipantKeys); err != nil {
+		return nil, err
+	}
 	threshold, err := conversion.GetThreshold(len(localStateItem.ParticipantKeys))
 	if err != nil {
 		return nil, errors.New("fail to get threshold")
-- 
2.43.0


From a14aead6eaaba20762b6927ebe375aed741a5756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 19/21] fix: drop a message that waits for a session once its
 subscription is cancelled

---
 p2p/communication.go         | 21 +++++++++++++++------
 p2p/message_id_subscriber.go | 29 +++++++++++++++++++++--------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/p2p/communication.go b/p2p/communication.go
index c2bb3a7..09f41a2 100644
--- a/p2p/communication.go
+++ b/p2p/communication.go
@@ -171,17 +171,22 @@ func (c *Communication) readFromStream(stream network.Stream) {
 		}
 		c.logger.Debug().Msgf(">>>>>>>[%s] %s", wrappedMsg.MessageType, string(wrappedMsg.Payload))
 		c.streamMgr.AddStream(wrappedMsg.MsgID, stream)
-		channel := c.getSubscriber(wrappedMsg.MessageType, wrappedMsg.MsgID)
-		if nil == channel {
+		sub := c.getSubscription(wrappedMsg.MessageType, wrappedMsg.MsgID)
+		if nil == sub.channel {
 			c.logger.Debug().Msgf("no MsgID %s found for this message", wrappedMsg.MsgID)
 			c.logger.Debug().Msgf("no MsgID %s found for this message", wrappedMsg.MessageType)
 			return
 		}
-		channel <- &Message{
+		// nobody reads from the channel any more once the subscription is cancelled
+		select {
+		case sub.channel <- &Message{
 			PeerID:  stream.Conn().RemotePeer(),
 			Payload: dataBuf,
+		}:
+		case <-sub.done:
+			c.logger.Debug().Msgf("session %s is over, message dropped", wrappedMsg.MsgID)
+		case <-c.stopChan:
 		}
-
 	}
 }
 
@@ -389,14 +394,18 @@ func (c *Communication) SetSubscribe(topic messages.THORChainTSSMessageType, msg
 }
 
 func (c *Communication) getSubscriber(topic messages.THORChainTSSMessageType, msgID string) chan *Message {
+	return c.getSubscription(topic, msgID).channel
+}
+
+func (c *Communication) getSubscription(topic messages.THORChainTSSMessageType, msgID string) subscription {
 	c.subscriberLocker.Lock()
 	defer c.subscriberLocker.Unlock()
 	messageIDSubscribers, ok := c.subscribers[topic]
 	if !ok {
 		c.logger.Debug().Msgf("fail to find subscribers for %s", topic)
-		return nil
+		return subscription{}
 	}
-	return messageIDSubscribers.GetSubscriber(msgID)
+	return messageIDSubscribers.getSubscription(msgID)
 }
 
 func (c *Communication) CancelSubscribe(topic messages.THORChainTSSMessageType, msgID string) {
diff --git a/p2p/message_id_subscriber.go b/p2p/message_id_subscriber.go
index ce4a758..d6a1ab9 100644
--- a/p2p/message_id_subscriber.go
+++ b/p2p/message_id_subscriber.go
@@ -2,17 +2,23 @@ package p2p
 
 import "sync"
 
+// subscription is the channel of a subscriber, done is closed once it is cancelled or replaced
+type subscription struct {
+	channel chan *Message
+	done    chan struct{}
+}
+
 // MessageIDSubscriber
 type MessageIDSubscriber struct {
 	lock        *sync.Mutex
-	subscribers map[string]chan *Message
+	subscribers map[string]subscription
 }
 
 // NewMessageIDSubscriber create a new instance of MessageIDSubscriber
 func NewMessageIDSubscriber() *MessageIDSubscriber {
 	return &MessageIDSubscriber{
 		lock:        &sync.Mutex{},
-		subscribers: make(map[string]chan *Message),
+		subscribers: make(map[string]subscription),
 	}
 }
 
@@ -20,25 +26,32 @@ func NewMessageIDSubscriber() *MessageIDSubscriber {
 func (ms *MessageIDSubscriber) Subscribe(msgID string, channel chan *Message) {
 	ms.lock.Lock()
 	defer ms.lock.Unlock()
-	ms.subscribers[msgID] = channel
+	if old, ok := ms.subscribers[msgID]; ok {
+		close(old.done)
+	}
+	ms.subscribers[msgID] = subscription{channel: channel, done: make(chan struct{})}
 }
 
 // UnSubscribe a messageid
 func (ms *MessageIDSubscriber) UnSubscribe(msgID string) {
 	ms.lock.Lock()
 	defer ms.lock.Unlock()
+	if old, ok := ms.subscribers[msgID]; ok {
+		close(old.done)
+	}
 	delete(ms.subscribers, msgID)
 }
 
 // GetSubscribers return a subscriber of given message id
 func (ms *MessageIDSubscriber) GetSubscriber(msgID string) chan *Message {
+	return ms.getSubscription(msgID).channel
+}
+
+// getSubscription return the subscription of given message id, its channel is nil if there is none
+func (ms *MessageIDSubscriber) getSubscription(msgID string) subscription {
 	ms.lock.Lock()
 	defer ms.lock.Unlock()
-	c, ok := ms.subscribers[msgID]
-	if !ok {
-		return nil
-	}
-	return c
+	return ms.subscribers[msgID]
 }
 
 // IsEmpty check whether there is subscribers
-- 
2.43.0


From c74fd17ed279de9ee544c9bd3d172f0b08bbc0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 20/21] fix: further responses of the leader do not leave their
 handlers blocked

---
 p2p/party_coordinator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 5b80288..c88194c 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -77,7 +77,11 @@ func (pc *PartyCoordinator) processRespMsg(respMsg *messages.JoinPartyLeaderComm
 	}
 	if remotePeer == peerGroup.leader {
 		peerGroup.setLeaderResponse(respMsg)
-		peerGroup.notify <- true
+		// one notification is enough, nobody takes those of further responses
+		select {
+		case peerGroup.notify <- true:
+		default:
+		}
 		err := WriteStreamWithBuffer([]byte("done"), stream)
 		if err != nil {
 			pc.logger.Error().Err(err).Msgf("fail to write the reply to peer: %s", remotePeer)
-- 
2.43.0


From 2f58bf4680ea7d10e3fb47cd6ea88527c85efb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:22 +0000
Subject: [PATCH 21/21] fix: refuse a private key that is too short instead of
 panicking

---
 conversion/key_provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conversion/key_provider.go b/conversion/key_provider.go
index 3f1ea7b..2f095ae 100644
--- a/conversion/key_provider.go
+++ b/conversion/key_provider.go
@@ -96,6 +96,9 @@ func GetPriKey(priKeyString string) (tcrypto.PrivKey, error) {
 	if err != nil {
 		return nil, fmt.Errorf("fail to hex decode private key: %w", err)
 	}
+	if len(rawBytes) < 32 {
+		return nil, errors.New("private key is too short")
+	}
 	var priKey secp256k1.PrivKey
 	priKey = rawBytes[:32]
 	return priKey, nil
-- 
2.43.0

