From 4cad33786fe29a44f24a86ac00aa8b0661ea03ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:57 +0000
Subject: [PATCH 01/43] fix: MTT buy-in that activates the regulator also
 queues its own player

---
 competition_engine.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index a0bd264..7e5159d 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -526,11 +526,10 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 			// 開賽後且達到開賽最低人數之後，丟到拆併桌程式
 			ce.regulatorAddPlayers([]string{joinPlayer.PlayerID})
 		} else {
+			// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
+			ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
 			if ce.shouldActivateRegulator() {
 				ce.activateRegulator()
-			} else {
-				// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
-				ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
 			}
 		}
 	}
-- 
2.43.0


From c6ead6d47d106f4c096f8f2c369a45c9194c99b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:57 +0000
Subject: [PATCH 02/43] fix: regulator balances by the configured table seat
 count

---
 competition_engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/competition_engine.go b/competition_engine.go
index 7e5159d..e315e2e 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -252,6 +252,7 @@ func (ce *competitionEngine) CreateCompetition(competitionSetting CompetitionSet
 		if ce.regulator == nil {
 			ce.regulator = regulator.NewRegulator(
 				regulator.MinInitialPlayers(competitionSetting.Meta.RegulatorMinInitialPlayerCount),
+				regulator.MaxPlayersPerTable(competitionSetting.Meta.TableMaxSeatCount),
 				regulator.WithRequestTableFn(func(playerIDs []string) (string, error) {
 					return ce.regulatorCreateAndDistributePlayers(playerIDs)
 				}),
-- 
2.43.0


From 478cd5b9d0119677b6cfbd13cf561e4e12e3a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 03/43] fix: refresh player counts after refund, quit,
 reservation and cash-out

---
 competition_engine.go          | 3 +++
 competition_engine_internal.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index e315e2e..0e23022 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -624,6 +624,7 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 		ce.competition.State.Players[playerIdx].TotalBuyInUnits = 0
 	}
 	ce.deletePlayer(playerIdx)
+	ce.refreshPlayerStatusStatistics()
 	defer ce.mu.Unlock()
 
 	// emit events
@@ -723,6 +724,7 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 		cp.IsReBuying = false
 		cp.ReBuyEndAt = UnsetValue
 		cp.CurrentSeat = UnsetValue
+		ce.refreshPlayerStatusStatistics()
 		ce.mu.Unlock()
 
 		ce.emitPlayerEvent("quit knockout", cp)
@@ -744,6 +746,7 @@ func (ce *competitionEngine) UpdateReserveTablePlayerState(tableID string, playe
 	cp.CurrentSeat = playerState.Seat
 	cp.CurrentTableID = tableID
 	cp.Status = CompetitionPlayerStatus_Playing
+	ce.refreshPlayerStatusStatistics()
 	ce.emitPlayerEvent("[UpdateReserveTablePlayerState] player table seat updated", cp)
 	ce.emitEvent(fmt.Sprintf("[UpdateReserveTablePlayerState] player (%s) is reserved to table (%s) at seat (%d)", cp.PlayerID, cp.CurrentTableID, cp.CurrentSeat), cp.PlayerID)
 }
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index cf1d2f8..7cd0b79 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -545,6 +545,7 @@ func (ce *competitionEngine) handleCashOut(tableID string, leavePlayerIndexes ma
 		}
 	}
 	ce.competition.State.Players = newPlayers
+	ce.refreshPlayerStatusStatistics()
 
 	// Emit Event
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_CashOutPlayers)
-- 
2.43.0


From 6e3068ecaf7ff0cbda9291078262abc3e8f8e747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 04/43] fix: a re-buy adds to the chips the player still holds

---
 competition_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 0e23022..0498e5b 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -479,7 +479,7 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		cp := ce.competition.State.Players[playerIdx]
 		cp.Status = playerStatus
 		cp.ReBuyWaitingAt = UnsetValue
-		cp.Chips = joinPlayer.RedeemChips
+		cp.Chips += joinPlayer.RedeemChips
 		cp.ReBuyTimes++
 		cp.IsReBuying = false
 		cp.ReBuyEndAt = UnsetValue
-- 
2.43.0


From 7455e0f688512f90c7622f60ac9bc9affdb5db7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 05/43] fix: refresh player counts when a cash player asks to
 leave

---
 competition_engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/competition_engine.go b/competition_engine.go
index 0498e5b..bbeec08 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -666,6 +666,7 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 	// update player status
 	cp := ce.competition.State.Players[playerIdx]
 	cp.Status = CompetitionPlayerStatus_CashLeaving
+	ce.refreshPlayerStatusStatistics()
 	ce.emitPlayerEvent("PlayerCashOut -> Cash Leaving", cp)
 
 	// 尚未開賽時 or 已經開賽但是賽事只剩一人，則直接結算，玩家直接離桌結算
-- 
2.43.0


From 7987bc49faa4080acc7a7b3a68429b7a03868f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 06/43] fix: reject add-ons once the competition has ended

---
 competition_engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index bbeec08..0924bd1 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -551,6 +551,11 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		return ErrCompetitionAddonRejected
 	}
 
+	// 賽事已結算，不再處理
+	if ce.isEndStatus() {
+		return ErrCompetitionAddonRejected
+	}
+
 	// validate Addon times
 	if ce.competition.Meta.AddonSetting.IsBreakOnly && !ce.competition.IsBreaking() {
 		return ErrCompetitionAddonRejected
-- 
2.43.0


From 33cf9671fc243795df9d43fb76e99cd1c5ba0dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 07/43] fix: credit an add-on only after the table accepted its
 chips

---
 competition_engine.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 0924bd1..239e32c 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -572,6 +572,18 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 
 	// do logic
 	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
+	// call tableEngine
+	jp := pokertable.JoinPlayer{
+		PlayerID:    joinPlayer.PlayerID,
+		RedeemChips: joinPlayer.RedeemChips,
+		Seat:        pokertable.UnsetValue,
+	}
+	if err := ce.tableManagerBackend.PlayerRedeemChips(tableID, jp); err != nil {
+		return err
+	}
+
 	cp.CurrentTableID = tableID
 	cp.Chips += joinPlayer.RedeemChips
 	cp.AddonTimes++
@@ -580,23 +592,12 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		ce.competition.State.Statistic.TotalAddonCount += joinPlayer.Unit
 	}
 	ce.refreshPlayerCompetitionRanks()
-	defer ce.mu.Unlock()
 
 	// emit events
 	ce.emitEvent("PlayerAddon", joinPlayer.PlayerID)
 	ce.emitPlayerEvent("PlayerAddon", cp)
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_CompetitionStatisticUpdated)
 
-	// call tableEngine
-	jp := pokertable.JoinPlayer{
-		PlayerID:    joinPlayer.PlayerID,
-		RedeemChips: joinPlayer.RedeemChips,
-		Seat:        pokertable.UnsetValue,
-	}
-	if err := ce.tableManagerBackend.PlayerRedeemChips(tableID, jp); err != nil {
-		return err
-	}
-
 	return nil
 }
 
-- 
2.43.0


From f12cb471dd4d0e8135130b3b25fc945281626f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 08/43] fix: an ended competition can not be started

---
 competition_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 239e32c..389736d 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -332,7 +332,7 @@ StartCompetition 開賽
   - 適用時機: MTT 手動開賽、MTT 自動開賽、CT 開賽
 */
 func (ce *competitionEngine) StartCompetition() (int64, error) {
-	if ce.isStarted {
+	if ce.isStarted || ce.isEndStatus() {
 		return ce.competition.State.StartAt, ErrCompetitionStartRejected
 	}
 
-- 
2.43.0


From 6c352e3213777573767f1d5180d1da0dda0b553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 09/43] fix: validate buy-ins, add-ons and refunds under the
 lock that applies them

---
 competition_engine.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 389736d..f0c62e8 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -393,6 +393,9 @@ func (ce *competitionEngine) StartCompetition() (int64, error) {
 }
 
 func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate join player data
 	if joinPlayer.RedeemChips <= 0 {
 		return ErrCompetitionNoRedeemChips
@@ -464,7 +467,6 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 	var competitionPlayer *CompetitionPlayer
 
 	// do logic
-	ce.mu.Lock()
 	if isBuyIn {
 		player := ce.newDefaultCompetitionPlayerData(tableID, joinPlayer.PlayerID, joinPlayer.RedeemChips, playerStatus, joinPlayer.Unit)
 		ce.competition.State.Players = append(ce.competition.State.Players, &player)
@@ -499,7 +501,6 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		ce.refreshPlayerCompetitionRanks()
 		competitionPlayer = cp
 	}
-	defer ce.mu.Unlock()
 
 	if isBuyIn {
 		ce.emitEvent(fmt.Sprintf("PlayerBuyIn -> %s Buy In", joinPlayer.PlayerID), joinPlayer.PlayerID)
@@ -539,6 +540,9 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 }
 
 func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate join player data
 	if joinPlayer.RedeemChips <= 0 {
 		return ErrCompetitionNoRedeemChips
@@ -570,10 +574,6 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		return ErrCompetitionExceedAddonLimit
 	}
 
-	// do logic
-	ce.mu.Lock()
-	defer ce.mu.Unlock()
-
 	// call tableEngine
 	jp := pokertable.JoinPlayer{
 		PlayerID:    joinPlayer.PlayerID,
@@ -602,6 +602,9 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 }
 
 func (ce *competitionEngine) PlayerRefund(playerID string) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate refund conditions
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == playerID
@@ -624,14 +627,12 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 	}
 
 	// refund logic
-	ce.mu.Lock()
 	if ce.competition.IsModeCTorMTT() {
 		ce.competition.State.Statistic.TotalBuyInCount -= player.TotalBuyInUnits
 		ce.competition.State.Players[playerIdx].TotalBuyInUnits = 0
 	}
 	ce.deletePlayer(playerIdx)
 	ce.refreshPlayerStatusStatistics()
-	defer ce.mu.Unlock()
 
 	// emit events
 	ce.emitEvent("PlayerRefund", playerID)
-- 
2.43.0


From b8f745e8650c79b8630d31a3d07ab7d85c18e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 10/43] fix: no self-deadlock when a table reports a settled
 hand from inside a command

---
 competition_engine_internal.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 7cd0b79..f15ed5b 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -223,13 +223,9 @@ settleCompetitionTable 桌次結算
 */
 func (ce *competitionEngine) settleCompetitionTable(table pokertable.Table, tableIdx int) {
 	gameSettledRecordID := fmt.Sprintf("%s.%d", table.ID, table.State.GameCount)
-	ce.mu.Lock()
-	if isGameSettled, ok := ce.gameSettledRecords.Load(gameSettledRecordID); ok && isGameSettled.(bool) {
-		ce.mu.Unlock()
+	if _, isGameSettled := ce.gameSettledRecords.LoadOrStore(gameSettledRecordID, true); isGameSettled {
 		return
 	}
-	ce.gameSettledRecords.Store(gameSettledRecordID, true)
-	ce.mu.Unlock()
 
 	// 更新玩家相關賽事數據
 	ce.updatePlayerCompetitionTableRecords(table)
-- 
2.43.0


From 9eda04d7f010b372ae84bac03a28b4f6a74fd926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 11/43] fix: concurrent or reentrant closes settle a
 competition only once

---
 competition_engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index f0c62e8..973e248 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/thoas/go-funk"
@@ -85,6 +86,7 @@ type competitionEngine struct {
 	breakingPauseResumeStates           map[string]map[int]bool // key: tableID, value: (k,v): (breaking blind level index, is resume from pause)
 	blind                               pokerblind.Blind
 	regulator                           regulator.Regulator
+	isClosing                           int32 // 0: not closing, 1: closing or closed
 	isStarted                           bool
 	isRegulatorStarted                  bool
 	waitingPlayers                      []string
@@ -318,7 +320,7 @@ CloseCompetition 關閉賽事
   - 適用時機: 賽事出狀況需要臨時關閉賽事、未達開賽條件自動關閉賽事、正常結束賽事
 */
 func (ce *competitionEngine) CloseCompetition(endStatus CompetitionStateStatus) error {
-	if ce.isEndStatus() {
+	if ce.isEndStatus() || !atomic.CompareAndSwapInt32(&ce.isClosing, 0, 1) {
 		return nil
 	}
 
-- 
2.43.0


From 40eab7107166acc7d395368a099923638ea196a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 12/43] fix: native backend reports first-hand readiness to the
 competition

---
 native_table_manager_backend.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/native_table_manager_backend.go b/native_table_manager_backend.go
index 87669c0..2c519c5 100644
--- a/native_table_manager_backend.go
+++ b/native_table_manager_backend.go
@@ -91,6 +91,20 @@ func (ntmb *nativeTableManagerBackend) CreateTable(options *pokertable.TableEngi
 
 		ntmb.onTablePlayerReserved(tableID, &clonePlayerState)
 	}
+	callbacks.OnReadyOpenFirstTableGame = func(competitionID, tableID string, gameCount int, playerStates []*pokertable.TablePlayerState) {
+		data, err := json.Marshal(playerStates)
+		if err != nil {
+			return
+		}
+
+		var clonePlayerStates []*pokertable.TablePlayerState
+		err = json.Unmarshal([]byte(data), &clonePlayerStates)
+		if err != nil {
+			return
+		}
+
+		ntmb.onReadyOpenFirstTableGame(tableID, gameCount, clonePlayerStates)
+	}
 
 	table, err := ntmb.manager.CreateTable(options, callbacks, setting)
 	if err != nil {
-- 
2.43.0


From 090172ef29ee9ce578e69a204091d774e86c2fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 13/43] fix: starting blinds with an unknown initial level is
 an error, not a panic

---
 blind/blind.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/blind/blind.go b/blind/blind.go
index 9d3eb2c..217db77 100644
--- a/blind/blind.go
+++ b/blind/blind.go
@@ -13,6 +13,7 @@ var (
 	ErrBlindNoOptions      = errors.New("blind: options not available")
 	ErrBlindNoState        = errors.New("blind: state not available")
 	ErrBlindAlreadyStarted = errors.New("blind: already started")
+	ErrBlindLevelNotFound  = errors.New("blind: initial level not found")
 )
 
 type Blind interface {
@@ -113,15 +114,18 @@ func (b *blind) Start() (*BlindState, error) {
 		return nil, ErrBlindNoOptions
 	}
 
-	startAt := time.Now()
-	b.bs.StartedAt = startAt.Unix()
-	b.isEnd = false
-
 	for idx, bl := range b.bs.Meta.Levels {
 		if bl.Level == b.bs.Meta.InitialLevel {
 			b.bs.Status.CurrentLevelIndex = idx
 		}
 	}
+	if b.bs.Status.CurrentLevelIndex == UnsetValue {
+		return nil, ErrBlindLevelNotFound
+	}
+
+	startAt := time.Now()
+	b.bs.StartedAt = startAt.Unix()
+	b.isEnd = false
 
 	for i := (b.bs.Status.CurrentLevelIndex); i < len(b.bs.Meta.Levels); i++ {
 		if i == b.bs.Status.CurrentLevelIndex {
-- 
2.43.0


From 772e3263f6ce498fdb0b6d051f9f5c3855caacf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 14/43] fix: buy-in is stopped from the start when the initial
 level is past the final buy-in level

---
 competition_engine_internal.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index f15ed5b..530e456 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -1125,16 +1125,16 @@ func (ce *competitionEngine) activateBlind() error {
 		return err
 	}
 
-	if ce.competition.Meta.Blind.FinalBuyInLevelIndex == UnsetValue || ce.competition.Meta.Blind.FinalBuyInLevelIndex < NoStopBuyInIndex {
+	ce.competition.State.BlindState.CurrentLevelIndex = bs.Status.CurrentLevelIndex
+	ce.competition.State.BlindState.FinalBuyInLevelIndex = bs.Status.FinalBuyInLevelIndex
+	copy(ce.competition.State.BlindState.EndAts, bs.Status.LevelEndAts)
+
+	if ce.competition.State.BlindState.IsStopBuyIn() {
 		ce.competition.State.Status = CompetitionStateStatus_StoppedBuyIn
 	} else {
 		ce.competition.State.Status = CompetitionStateStatus_DelayedBuyIn
 	}
 
-	ce.competition.State.BlindState.CurrentLevelIndex = bs.Status.CurrentLevelIndex
-	ce.competition.State.BlindState.FinalBuyInLevelIndex = bs.Status.FinalBuyInLevelIndex
-	copy(ce.competition.State.BlindState.EndAts, bs.Status.LevelEndAts)
-
 	ce.emitEvent("ActivateBlind", "")
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_BlindActivated)
 	return nil
-- 
2.43.0


From 1697410bc92441e4e6bc5dd8ceb978c1a06d0f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 15/43] fix: MTT without late buy-in also breaks tables and
 advances

---
 regulator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/regulator.go b/regulator.go
index 34e1e79..f5abfe8 100644
--- a/regulator.go
+++ b/regulator.go
@@ -118,6 +118,12 @@ func (ce *competitionEngine) activateRegulator() {
 	// 啟動拆併桌程式
 	ce.regulator.SetStatus(regulator.CompetitionStatus_Normal)
 	ce.isRegulatorStarted = true
+
+	// 一開賽就停止買入，直接進入停止買入階段
+	if ce.competition.State.Status == CompetitionStateStatus_StoppedBuyIn {
+		ce.initAdvancement()
+		ce.regulator.SetStatus(regulator.CompetitionStatus_AfterRegDeadline)
+	}
 }
 
 func (ce *competitionEngine) regulatorAddPlayers(playerIDs []string) error {
-- 
2.43.0


From bb95b0694c190f84ec096bb5a61bd17db4f23e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 16/43] fix: count showdown chances and wins

---
 competition_engine_internal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 530e456..a13c231 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -857,6 +857,12 @@ func (ce *competitionEngine) updatePlayerCompetitionTableRecords(table pokertabl
 		if player.GameStatistics.IsFtCB {
 			cp.TotalFtCBTimes++
 		}
+		if player.GameStatistics.ShowdownWinningChance {
+			cp.TotalShowdownWinningChances++
+		}
+		if player.GameStatistics.IsShowdownWinning {
+			cp.TotalShowdownWinningTimes++
+		}
 	}
 
 	// 更新贏家統計數據
-- 
2.43.0


From 218aa756bada4f3f653c1c1ede6b96b653113176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 17/43] fix: a CT with a start time starts at that time

---
 competition_engine.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 973e248..bfeea22 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -275,7 +275,17 @@ func (ce *competitionEngine) CreateCompetition(competitionSetting CompetitionSet
 			}
 
 			if ce.competition.State.Status == CompetitionStateStatus_Registering {
-				ce.StartCompetition()
+				if ce.competition.Meta.Mode == CompetitionMode_MTT {
+					ce.StartCompetition()
+					return
+				}
+
+				// CT/Cash 開賽需要同時啟動盲注與桌次，人數未達開賽條件則繼續等待
+				for idx, table := range ce.competition.State.Tables {
+					if table.State.Status == pokertable.TableStateStatus_TableCreated {
+						ce.handleCompetitionTableCreated(*table, idx)
+					}
+				}
 			}
 		}); err != nil {
 			return nil, err
-- 
2.43.0


From 65dcd1364f4aac884a3ad2b652ec25f16694951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 18/43] fix: re-buy windows do not lapse after the competition
 ended

---
 competition_engine_internal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index a13c231..70c0980 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -714,6 +714,11 @@ func (ce *competitionEngine) handleReBuy(table pokertable.Table) {
 				return
 			}
 
+			// 賽事已結算，不再處理
+			if ce.isEndStatus() {
+				return
+			}
+
 			leavePlayerIDs := make([]string, 0)
 			leavePlayerIndexes := make(map[string]int)
 			for _, reBuyPlayerID := range reBuyPlayerIDs {
-- 
2.43.0


From 299be5643e508166448c81b45af23e82f5977acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 19/43] fix: players never see hidden cards of a hand that is
 opening or paused

---
 actor/player_runner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index 66a6bb9..77917a1 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -75,8 +75,8 @@ func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 	} else {
 		cloneTable = *table
 	}
-	// hide certain game state fields for player when table game is playing
-	if cloneTable.State.Status == pokertable.TableStateStatus_TableGamePlaying || cloneTable.State.Status == pokertable.TableStateStatus_TableGameSettled {
+	// hide certain game state fields for player as long as there is a game (the table may be paused in the middle of it)
+	if cloneTable.State.GameState != nil {
 		gpIdx := table.GamePlayerIndex(pr.playerID)
 		cloneTable.State.GameState.AsPlayer(gpIdx)
 	}
-- 
2.43.0


From 407577cbd1576e52696c545ae20f4198b2883e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:49 +0000
Subject: [PATCH 20/43] fix: play resumes after the last of consecutive breaks,
 not during them

---
 competition_engine_internal.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 70c0980..b5ec92e 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -571,7 +571,8 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 	}
 
 	// reopen table game
-	endAt := ce.competition.State.BlindState.EndAts[ce.competition.State.BlindState.CurrentLevelIndex] + 1
+	breakingLevelIdx := ce.competition.State.BlindState.CurrentLevelIndex
+	endAt := ce.competition.State.BlindState.EndAts[breakingLevelIdx] + 1
 	if err := timebank.NewTimeBank().NewTaskWithDeadline(time.Unix(endAt, 0), func(isCancelled bool) {
 		if isCancelled {
 			fmt.Println("[DEBUG#handleBreaking] timer is canceled. TableID:", tableID)
@@ -583,7 +584,13 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 			return
 		}
 
-		if ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] {
+		// 連續中場休息，由後面的中場休息結束後恢復
+		if ce.competition.IsBreaking() {
+			fmt.Println("[DEBUG#handleBreaking] still breaking. TableID:", tableID)
+			return
+		}
+
+		if ce.breakingPauseResumeStates[tableID][breakingLevelIdx] {
 			fmt.Println("[DEBUG#handleBreaking] 2 already resume table games from breaking. TableID:", tableID)
 			return
 		}
@@ -604,10 +611,10 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 				nextGameCount := t.State.GameCount + 1
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
 				ce.tableManagerBackend.SetUpTableGame(tableID, nextGameCount, participants)
-				ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] = true
+				ce.breakingPauseResumeStates[tableID][breakingLevelIdx] = true
 			} else if t.State.GameCount == 0 {
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
-				ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] = true
+				ce.breakingPauseResumeStates[tableID][breakingLevelIdx] = true
 				if len(participants) >= ce.competition.Meta.TableMinPlayerCount {
 					if err := ce.tableManagerBackend.StartTableGame(tableID); err != nil {
 						ce.emitErrorEvent("resume game from breaking & auto start game", "", err)
-- 
2.43.0


From d26bc13af3e8680a11c4ad64ae25fab20b6f73b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 21/43] fix: late reservations and first-hand readiness do not
 touch an ended competition

---
 competition_engine.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index bfeea22..73f6a43 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -756,6 +756,11 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 }
 
 func (ce *competitionEngine) UpdateReserveTablePlayerState(tableID string, playerState *pokertable.TablePlayerState) {
+	// 賽事已結算，不再處理
+	if ce.isEndStatus() {
+		return
+	}
+
 	// 更新玩家狀態
 	playerIdx, exist := ce.competition.GetPlayerIndexMap()[playerState.PlayerID]
 	if !exist {
@@ -831,6 +836,11 @@ func (ce *competitionEngine) UpdateTable(table *pokertable.Table) {
 }
 
 func (ce *competitionEngine) ReadyFirstTableGame(tableID string, gameCount int, players []*pokertable.TablePlayerState) error {
+	// 賽事已結算，不再處理
+	if ce.isEndStatus() {
+		return nil
+	}
+
 	participants := ce.generateAliveParticipants(players)
 	return ce.tableManagerBackend.SetUpTableGame(tableID, gameCount, participants)
 }
-- 
2.43.0


From 824178538bcff3938e0389ec4ff4f3f40c642f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:00 +0000
Subject: [PATCH 22/43] fix: starting blinds without options is an error, not a
 panic

---
 blind/blind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blind/blind.go b/blind/blind.go
index 217db77..9c0f70d 100644
--- a/blind/blind.go
+++ b/blind/blind.go
@@ -157,7 +157,7 @@ func (b *blind) End() {
 }
 
 func (b *blind) IsStarted() bool {
-	return b.bs.IsActive()
+	return b.bs != nil && b.bs.IsActive()
 }
 
 func (b *blind) updateLevel(endAt int64) {
-- 
2.43.0


From 9b96db1994015e7b86bde97f85946069fe908e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:00 +0000
Subject: [PATCH 23/43] fix: heads-up dealers pay the dealer blind when there
 is no small blind

---
 actor/bot_runner.go    | 4 ++--
 actor/player_runner.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index 9dbff43..1df45a3 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -187,9 +187,9 @@ func (br *botRunner) requestMove(gs *pokerface.GameState, playerIdx int) error {
 		case pokerface.GameEventSymbols[pokerface.GameEvent_BlindsRequested]:
 
 			// blinds
-			if gs.HasPosition(playerIdx, "sb") {
+			if gs.Meta.Blind.SB > 0 && gs.HasPosition(playerIdx, "sb") {
 				return br.actions.Pay(gs.Meta.Blind.SB)
-			} else if gs.HasPosition(playerIdx, "bb") {
+			} else if gs.Meta.Blind.BB > 0 && gs.HasPosition(playerIdx, "bb") {
 				return br.actions.Pay(gs.Meta.Blind.BB)
 			}
 
diff --git a/actor/player_runner.go b/actor/player_runner.go
index 77917a1..eaa6a6e 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -180,10 +180,10 @@ func (pr *PlayerRunner) requestMove(gs *pokerface.GameState, playerIdx int) erro
 	case pokerface.GameEventSymbols[pokerface.GameEvent_BlindsRequested]:
 
 		// blinds
-		if gs.HasPosition(playerIdx, "sb") {
+		if gs.Meta.Blind.SB > 0 && gs.HasPosition(playerIdx, "sb") {
 			fmt.Printf("[%s#%d][%d][%s][%s] PAY SB (%d)\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, pr.tableInfo.State.GameState.Status.Round, gs.Meta.Blind.SB)
 			return pr.actions.Pay(gs.Meta.Blind.SB)
-		} else if gs.HasPosition(playerIdx, "bb") {
+		} else if gs.Meta.Blind.BB > 0 && gs.HasPosition(playerIdx, "bb") {
 			fmt.Printf("[%s#%d][%d][%s][%s] PAY BB  (%d)\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, pr.tableInfo.State.GameState.Status.Round, gs.Meta.Blind.BB)
 			return pr.actions.Pay(gs.Meta.Blind.BB)
 		}
-- 
2.43.0


From d24de3234564496c4bf84856723d3079b8932515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:00 +0000
Subject: [PATCH 24/43] fix: a humanized bot drops the move of an outdated game
 state

---
 actor/bot_runner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index 1df45a3..a4ff8b4 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -123,6 +123,9 @@ func (br *botRunner) UpdateTableState(table *pokertable.Table) error {
 		}
 
 		br.lastGameStateTime = gs.UpdatedAt
+
+		// A move still being thought about belongs to an outdated state
+		br.timebank.Cancel()
 	}
 
 	if table.State.Status != pokertable.TableStateStatus_TableGamePlaying {
-- 
2.43.0


From 849de6a5bce355ecc5d52dac5fc52fc49658e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:00 +0000
Subject: [PATCH 25/43] fix: a pending time-out does not switch auto mode off

---
 actor/player_runner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index eaa6a6e..b5f8496 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -265,6 +265,11 @@ func (pr *PlayerRunner) Resume() error {
 }
 
 func (pr *PlayerRunner) Idle() error {
+	// auto mode stays on until the player resumes
+	if pr.status == PlayerStatus_Suspend {
+		return nil
+	}
+
 	if pr.status != PlayerStatus_Idle {
 		pr.status = PlayerStatus_Idle
 		pr.idleCount = 0
-- 
2.43.0


From 9195b36562b2423e0c5911255edfdaf738bc5711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:00 +0000
Subject: [PATCH 26/43] fix: an automatic move that ends the hand does not
 panic

---
 actor/player_runner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index b5f8496..763e9d6 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -222,7 +222,7 @@ func (pr *PlayerRunner) automate(gs *pokerface.GameState, playerIdx int) error {
 			return err
 		}
 
-		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO READY\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, pr.tableInfo.State.GameState.Status.Round, pr.status)
+		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO READY\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, gs.Status.Round, pr.status)
 		return nil
 	} else if gs.HasAction(playerIdx, "check") {
 		err := pr.actions.Check()
@@ -230,7 +230,7 @@ func (pr *PlayerRunner) automate(gs *pokerface.GameState, playerIdx int) error {
 			return err
 		}
 
-		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO CHECK\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, pr.tableInfo.State.GameState.Status.Round, pr.status)
+		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO CHECK\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, gs.Status.Round, pr.status)
 		pr.updateWagerAction(pokertable.WagerAction_Check, 0)
 		return nil
 	} else if gs.HasAction(playerIdx, "fold") {
@@ -239,7 +239,7 @@ func (pr *PlayerRunner) automate(gs *pokerface.GameState, playerIdx int) error {
 			return err
 		}
 
-		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO FOLD\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, pr.tableInfo.State.GameState.Status.Round, pr.status)
+		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO FOLD\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, gs.Status.Round, pr.status)
 		pr.updateWagerAction(pokertable.WagerAction_Fold, 0)
 		return nil
 	}
-- 
2.43.0


From de7f8e38a19893899dc46aa42e83670bbdcaa644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:00 +0000
Subject: [PATCH 27/43] fix: a player's move only cancels the automatic move of
 its own turn

---
 actor/player_runner.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index 763e9d6..3f29fff 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -101,6 +101,9 @@ func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 		}
 
 		pr.lastGameStateTime = gs.UpdatedAt
+
+		// An automatic move still pending belongs to an outdated state
+		pr.timebank.Cancel()
 	}
 
 	// Check if you have been eliminated
@@ -197,7 +200,8 @@ func (pr *PlayerRunner) requestMove(gs *pokerface.GameState, playerIdx int) erro
 		return pr.automate(gs, playerIdx)
 	}
 
-	// Setup timebank to wait for player
+	// Setup timebank to wait for player (every turn has its own, so that a move only cancels the automatic move of its turn)
+	pr.timebank = timebank.NewTimeBank()
 	thinkingTime := time.Duration(pr.tableInfo.Meta.ActionTime) * time.Second
 	return pr.timebank.NewTask(thinkingTime, func(isCancelled bool) {
 
@@ -295,45 +299,49 @@ func (pr *PlayerRunner) Suspend() error {
 
 func (pr *PlayerRunner) Pass() error {
 
+	pending := pr.timebank
 	err := pr.actions.Pass()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.timebank.Cancel()
+	pending.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Ready() error {
 
+	pending := pr.timebank
 	err := pr.actions.Ready()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.timebank.Cancel()
+	pending.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Pay(chips int64) error {
 
+	pending := pr.timebank
 	err := pr.actions.Pay(chips)
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.timebank.Cancel()
+	pending.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Check() error {
 
+	pending := pr.timebank
 	err := pr.actions.Check()
 	if err != nil {
 		return err
@@ -341,13 +349,14 @@ func (pr *PlayerRunner) Check() error {
 
 	pr.idleCount = 0
 	pr.updateWagerAction(pokertable.WagerAction_Check, 0)
-	pr.timebank.Cancel()
+	pending.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Bet(chips int64) error {
 
+	pending := pr.timebank
 	err := pr.actions.Bet(chips)
 	if err != nil {
 		return err
@@ -355,7 +364,7 @@ func (pr *PlayerRunner) Bet(chips int64) error {
 
 	pr.idleCount = 0
 	pr.updateWagerAction(pokertable.WagerAction_Bet, chips)
-	pr.timebank.Cancel()
+	pending.Cancel()
 
 	return nil
 }
@@ -369,6 +378,7 @@ func (pr *PlayerRunner) Call() error {
 		wager = pr.tableInfo.State.GameState.Status.CurrentWager - pr.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).Wager
 	}
 
+	pending := pr.timebank
 	err := pr.actions.Call()
 	if err != nil {
 		return err
@@ -376,20 +386,21 @@ func (pr *PlayerRunner) Call() error {
 
 	pr.idleCount = 0
 	pr.updateWagerAction(pokertable.WagerAction_Call, wager)
-	pr.timebank.Cancel()
+	pending.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Fold() error {
 	pr.Resume()
+	pending := pr.timebank
 	err := pr.actions.Fold()
 	if err != nil {
 		return err
 	}
 
 	pr.updateWagerAction(pokertable.WagerAction_Fold, 0)
-	pr.timebank.Cancel()
+	pending.Cancel()
 
 	return nil
 }
@@ -402,6 +413,7 @@ func (pr *PlayerRunner) Allin() error {
 		wager = pr.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).StackSize
 	}
 
+	pending := pr.timebank
 	err := pr.actions.Allin()
 	if err != nil {
 		return err
@@ -409,13 +421,14 @@ func (pr *PlayerRunner) Allin() error {
 
 	pr.idleCount = 0
 	pr.updateWagerAction(pokertable.WagerAction_AllIn, wager)
-	pr.timebank.Cancel()
+	pending.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Raise(chipLevel int64) error {
 
+	pending := pr.timebank
 	err := pr.actions.Raise(chipLevel)
 	if err != nil {
 		return err
@@ -423,7 +436,7 @@ func (pr *PlayerRunner) Raise(chipLevel int64) error {
 
 	pr.idleCount = 0
 	pr.updateWagerAction(pokertable.WagerAction_Raise, chipLevel)
-	pr.timebank.Cancel()
+	pending.Cancel()
 
 	return nil
 }
-- 
2.43.0


From c68572e1b2063a46d0f8716d3a4fde05a3359dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:21 +0000
Subject: [PATCH 28/43] fix: the native backend returns a copy of the created
 table, not the live one

---
 native_table_manager_backend.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/native_table_manager_backend.go b/native_table_manager_backend.go
index 2c519c5..23a03a5 100644
--- a/native_table_manager_backend.go
+++ b/native_table_manager_backend.go
@@ -111,7 +111,19 @@ func (ntmb *nativeTableManagerBackend) CreateTable(options *pokertable.TableEngi
 		return nil, err
 	}
 
-	return table, nil
+	// the manager returns its live table, which goes on changing
+	data, err := json.Marshal(table)
+	if err != nil {
+		return nil, err
+	}
+
+	var cloneTable pokertable.Table
+	err = json.Unmarshal(data, &cloneTable)
+	if err != nil {
+		return nil, err
+	}
+
+	return &cloneTable, nil
 }
 
 func (ntbm *nativeTableManagerBackend) PauseTable(tableID string) error {
-- 
2.43.0


From c4e4fc2738ee5fd069950994f7b16081760927f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:13 +0000
Subject: [PATCH 29/43] fix: a failed PlayersLeave of a quit is reported

---
 competition_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 73f6a43..ddd0a8d 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -736,7 +736,7 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 
 	if err := ce.tableManagerBackend.PlayersLeave(tableID, []string{playerID}); err != nil {
 		fmt.Printf("[DEBUG#PlayerQuit] PlayersLeave Error: %+v. CompetitionID: %s, TableID: %s, PlayerID: %s", err, ce.competition.ID, tableID, playerID)
-		// ce.emitErrorEvent("Player Quit Knockout Players -> PlayersLeave", playerID, err)
+		ce.emitErrorEvent("Player Quit Knockout Players -> PlayersLeave", playerID, err)
 	} else {
 		ce.mu.Lock()
 		cp := ce.competition.State.Players[playerIdx]
-- 
2.43.0


From 784d82f83aa44b5fab4369bc395acf3f0c9dbc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:13 +0000
Subject: [PATCH 30/43] fix: a failed set-up of a hand is reported

---
 competition_engine.go          | 4 +++-
 competition_engine_internal.go | 9 +++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index ddd0a8d..fd9e651 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -139,7 +139,9 @@ func WithTableManagerBackend(tmb TableManagerBackend) CompetitionEngineOpt {
 			ce.UpdateReserveTablePlayerState(tableID, playerState)
 		})
 		ce.tableManagerBackend.OnReadyOpenFirstTableGame(func(tableID string, gameCount int, playerStates []*pokertable.TablePlayerState) {
-			ce.ReadyFirstTableGame(tableID, gameCount, playerStates)
+			if err := ce.ReadyFirstTableGame(tableID, gameCount, playerStates); err != nil {
+				ce.emitErrorEvent("ReadyFirstTableGame", "", err)
+			}
 		})
 	}
 }
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index b5ec92e..3ac6776 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -138,7 +138,10 @@ func (ce *competitionEngine) updatePauseCompetition(table pokertable.Table, tabl
 	// re-open game
 	if shouldReOpenGame && !ce.competition.IsBreaking() {
 		nextGameCount := table.State.GameCount + 1
-		ce.tableManagerBackend.SetUpTableGame(table.ID, nextGameCount, aliveParticipants)
+		if err := ce.tableManagerBackend.SetUpTableGame(table.ID, nextGameCount, aliveParticipants); err != nil {
+			ce.emitErrorEvent("Game Reopen -> SetUpTableGame", "", err)
+			return
+		}
 		ce.emitEvent("Game Reopen:", "")
 	}
 }
@@ -610,7 +613,9 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 			if t.State.GameCount > 0 {
 				nextGameCount := t.State.GameCount + 1
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
-				ce.tableManagerBackend.SetUpTableGame(tableID, nextGameCount, participants)
+				if err := ce.tableManagerBackend.SetUpTableGame(tableID, nextGameCount, participants); err != nil {
+					ce.emitErrorEvent("resume game from breaking & set up game", "", err)
+				}
 				ce.breakingPauseResumeStates[tableID][breakingLevelIdx] = true
 			} else if t.State.GameCount == 0 {
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
-- 
2.43.0


From 75a5dcd2477d6903bbe6c9a9c59203eddb080697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:13 +0000
Subject: [PATCH 31/43] fix: a failed release of a table is reported

---
 competition_engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index fd9e651..45010d5 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -796,7 +796,9 @@ func (ce *competitionEngine) AutoGameOpenEnd(tableID string) error {
 
 func (ce *competitionEngine) ReleaseTables() error {
 	for _, table := range ce.competition.State.Tables {
-		_ = ce.tableManagerBackend.ReleaseTable(table.ID)
+		if err := ce.tableManagerBackend.ReleaseTable(table.ID); err != nil {
+			ce.emitErrorEvent("ReleaseTables -> ReleaseTable", "", err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From aded3fc4670c7797606ca8f3aef4de24c439bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:25 +0000
Subject: [PATCH 32/43] fix: a table command failing inside the table balancer
 is reported

---
 competition_engine.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 45010d5..cbead99 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -258,10 +259,18 @@ func (ce *competitionEngine) CreateCompetition(competitionSetting CompetitionSet
 				regulator.MinInitialPlayers(competitionSetting.Meta.RegulatorMinInitialPlayerCount),
 				regulator.MaxPlayersPerTable(competitionSetting.Meta.TableMaxSeatCount),
 				regulator.WithRequestTableFn(func(playerIDs []string) (string, error) {
-					return ce.regulatorCreateAndDistributePlayers(playerIDs)
+					tableID, err := ce.regulatorCreateAndDistributePlayers(playerIDs)
+					if err != nil {
+						ce.emitErrorEvent("MTT Regulator Create Table", strings.Join(playerIDs, ","), err)
+					}
+					return tableID, err
 				}),
 				regulator.WithAssignPlayersFn(func(tableID string, playerIDs []string) error {
-					return ce.regulatorDistributePlayers(tableID, playerIDs)
+					err := ce.regulatorDistributePlayers(tableID, playerIDs)
+					if err != nil {
+						ce.emitErrorEvent("MTT Regulator Distribute Players", strings.Join(playerIDs, ","), err)
+					}
+					return err
 				}),
 			)
 			ce.regulator.SetStatus(regulator.CompetitionStatus_Pending)
-- 
2.43.0


From bc77708f0c548df88e7674e3261665c8773d0555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:31 +0000
Subject: [PATCH 33/43] fix: a table that closes while it is resumed after a
 break does not panic

---
 competition_engine_internal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 3ac6776..14e9f5d 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -613,10 +613,10 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 			if t.State.GameCount > 0 {
 				nextGameCount := t.State.GameCount + 1
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
+				ce.breakingPauseResumeStates[tableID][breakingLevelIdx] = true
 				if err := ce.tableManagerBackend.SetUpTableGame(tableID, nextGameCount, participants); err != nil {
 					ce.emitErrorEvent("resume game from breaking & set up game", "", err)
 				}
-				ce.breakingPauseResumeStates[tableID][breakingLevelIdx] = true
 			} else if t.State.GameCount == 0 {
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
 				ce.breakingPauseResumeStates[tableID][breakingLevelIdx] = true
-- 
2.43.0


From c5dc89651118e48b8a09a86c0f95934829b4607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:31 +0000
Subject: [PATCH 34/43] fix: a competition closed from inside an announcement
 stays closed

---
 competition_engine_internal.go | 19 +++++++++++++++++--
 regulator.go                   |  5 +++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 14e9f5d..53e7d02 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -73,6 +73,11 @@ func (ce *competitionEngine) handleCompetitionTableCreated(table pokertable.Tabl
 			return
 		}
 
+		// 賽事已結算，不再處理
+		if ce.isEndStatus() {
+			return
+		}
+
 		// 啟動盲注系統
 		err := ce.activateBlind()
 		if err != nil {
@@ -98,6 +103,11 @@ func (ce *competitionEngine) handleCompetitionTableCreated(table pokertable.Tabl
 			return
 		}
 
+		// 賽事已結算，不再處理
+		if ce.isEndStatus() {
+			return
+		}
+
 		// 啟動盲注系統
 		err := ce.activateBlind()
 		if err != nil {
@@ -1058,14 +1068,19 @@ func (ce *competitionEngine) initBlind(meta CompetitionMeta) {
 		ce.emitCompetitionStateEvent(CompetitionStateEvent_BlindUpdated) // change CurrentLevelIndex
 		ce.emitEvent("Blind CurrentLevelIndex Update", "")
 
+		// 賽事已結算，不再處理
+		if ce.isEndStatus() {
+			return
+		}
+
 		// 更新賽事狀態: 停止買入
 		if ce.competition.State.BlindState.IsStopBuyIn() {
 			if ce.competition.State.Status != CompetitionStateStatus_StoppedBuyIn {
+				ce.competition.State.Status = CompetitionStateStatus_StoppedBuyIn
+
 				// 處理晉級
 				ce.initAdvancement()
 
-				ce.competition.State.Status = CompetitionStateStatus_StoppedBuyIn
-
 				// MTT 在停止買入階段，更新拆併桌監管器狀態
 				if ce.competition.Meta.Mode == CompetitionMode_MTT {
 					ce.regulator.SetStatus(regulator.CompetitionStatus_AfterRegDeadline)
diff --git a/regulator.go b/regulator.go
index f5abfe8..83e9f83 100644
--- a/regulator.go
+++ b/regulator.go
@@ -109,6 +109,11 @@ func (ce *competitionEngine) activateRegulator() {
 		}
 	}
 
+	// 賽事已結算，不再處理
+	if ce.isEndStatus() {
+		return
+	}
+
 	//  把等待區玩家加入拆併桌程式
 	if err := ce.regulatorAddPlayers(ce.waitingPlayers); err != nil {
 		ce.emitErrorEvent("MTT Regulator Add Players Error", strings.Join(ce.waitingPlayers, ","), err)
-- 
2.43.0


From fde1bd089be497d3daecbb1c595dbc2695cbb3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:48 +0000
Subject: [PATCH 35/43] fix: a registration during which the competition is
 closed does not go on

---
 competition_engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index cbead99..c85a629 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -534,6 +534,11 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 	}
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_CompetitionStatisticUpdated)
 
+	// 賽事已結算，不再處理
+	if ce.isEndStatus() {
+		return nil
+	}
+
 	switch ce.competition.Meta.Mode {
 	case CompetitionMode_CT, CompetitionMode_Cash:
 		// call tableEngine
-- 
2.43.0


From b2ba43e7b0e035dd8e2ae42d5982afbe259c1789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:09 +0000
Subject: [PATCH 36/43] fix: a competition closed while tables are being
 allocated creates no further ones

---
 competition_engine.go          |  6 ++++++
 competition_engine_internal.go | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index c85a629..ef015f4 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -31,6 +31,7 @@ var (
 	ErrCompetitionExceedAddonLimit                = errors.New("competition: exceed addon limit")
 	ErrCompetitionPlayerNotFound                  = errors.New("competition: player not found")
 	ErrCompetitionTableNotFound                   = errors.New("competition: table not found")
+	ErrCompetitionAlreadyEnded                    = errors.New("competition: already ended")
 	ErrMatchInitFailed                            = errors.New("competition: failed to init match")
 	ErrMatchTableReservePlayerFailed              = errors.New("competition: failed to balance player to table by match")
 )
@@ -266,6 +267,11 @@ func (ce *competitionEngine) CreateCompetition(competitionSetting CompetitionSet
 					return tableID, err
 				}),
 				regulator.WithAssignPlayersFn(func(tableID string, playerIDs []string) error {
+					// 賽事已結算，不再分配玩家
+					if ce.isEndStatus() {
+						return nil
+					}
+
 					err := ce.regulatorDistributePlayers(tableID, playerIDs)
 					if err != nil {
 						ce.emitErrorEvent("MTT Regulator Distribute Players", strings.Join(playerIDs, ","), err)
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 53e7d02..b891527 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -157,6 +157,11 @@ func (ce *competitionEngine) updatePauseCompetition(table pokertable.Table, tabl
 }
 
 func (ce *competitionEngine) addCompetitionTable(tableSetting TableSetting, blind pokertable.TableBlindState) (string, error) {
+	// 賽事已結算，不再開桌
+	if ce.isEndStatus() {
+		return "", ErrCompetitionAlreadyEnded
+	}
+
 	// create table
 	setting := NewPokerTableSetting(ce.competition.ID, ce.competition.Meta, tableSetting, blind)
 	table, err := ce.tableManagerBackend.CreateTable(ce.tableOptions, setting)
@@ -168,6 +173,14 @@ func (ce *competitionEngine) addCompetitionTable(tableSetting TableSetting, blin
 		ce.handleBreaking(table.ID)
 	}
 
+	// 開桌期間賽事已結算，釋放桌次
+	if ce.isEndStatus() {
+		if err := ce.tableManagerBackend.ReleaseTable(table.ID); err != nil {
+			ce.emitErrorEvent("Add Competition Table -> ReleaseTable", "", err)
+		}
+		return "", ErrCompetitionAlreadyEnded
+	}
+
 	// add table
 	ce.competition.State.Tables = append(ce.competition.State.Tables, table)
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_TableUpdated)
-- 
2.43.0


From 93b718090d5bf205b43901d0933b03e5d5bfb0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:09 +0000
Subject: [PATCH 37/43] fix: a bot announces the bet of a short stack

---
 actor/bot_runner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index a4ff8b4..c34355d 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -298,11 +298,11 @@ func (br *botRunner) requestAI(gs *pokerface.GameState, playerIdx int) error {
 		minBet := gs.Status.MiniBet
 
 		if player.InitialStackSize <= minBet {
-			return br.actions.Bet(player.InitialStackSize)
+			chips = player.InitialStackSize
+		} else {
+			chips = rand.Int63n(player.InitialStackSize-minBet) + minBet
 		}
 
-		chips = rand.Int63n(player.InitialStackSize-minBet) + minBet
-
 		err := br.actions.Bet(chips)
 		if err != nil {
 			return err
-- 
2.43.0


From 2476ba5b9079655cfc22945bec69daa00360e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:06 +0000
Subject: [PATCH 38/43] fix: moves are announced with the hand and round they
 were made in

---
 actor/bot_runner.go    | 30 +++++++++++++++++++++---------
 actor/player_runner.go | 33 +++++++++++++++++++++++----------
 2 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index c34355d..c51f3dd 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -303,12 +303,13 @@ func (br *botRunner) requestAI(gs *pokerface.GameState, playerIdx int) error {
 			chips = rand.Int63n(player.InitialStackSize-minBet) + minBet
 		}
 
+		updateWagerAction := br.wagerActionUpdater()
 		err := br.actions.Bet(chips)
 		if err != nil {
 			return err
 		}
 
-		br.updateWagerAction(pokertable.WagerAction_Bet, chips)
+		updateWagerAction(pokertable.WagerAction_Bet, chips)
 		return nil
 	case "raise":
 
@@ -316,23 +317,25 @@ func (br *botRunner) requestAI(gs *pokerface.GameState, playerIdx int) error {
 		minChipLevel := gs.Status.CurrentWager + gs.Status.PreviousRaiseSize
 
 		if maxChipLevel <= minChipLevel {
+			updateWagerAction := br.wagerActionUpdater()
 			err := br.actions.Raise(maxChipLevel)
 			if err != nil {
 				return err
 			}
 
-			br.updateWagerAction(pokertable.WagerAction_Raise, maxChipLevel)
+			updateWagerAction(pokertable.WagerAction_Raise, maxChipLevel)
 			return nil
 		}
 
 		chips = rand.Int63n(maxChipLevel-minChipLevel) + minChipLevel
 
+		updateWagerAction := br.wagerActionUpdater()
 		err := br.actions.Raise(chips)
 		if err != nil {
 			return err
 		}
 
-		br.updateWagerAction(pokertable.WagerAction_Raise, chips)
+		updateWagerAction(pokertable.WagerAction_Raise, chips)
 		return nil
 	case "call":
 		// TODO: should move logic to pokertable
@@ -342,20 +345,22 @@ func (br *botRunner) requestAI(gs *pokerface.GameState, playerIdx int) error {
 			wager = br.tableInfo.State.GameState.Status.CurrentWager - br.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).Wager
 		}
 
+		updateWagerAction := br.wagerActionUpdater()
 		err := br.actions.Call()
 		if err != nil {
 			return err
 		}
 
-		br.updateWagerAction(pokertable.WagerAction_Call, wager)
+		updateWagerAction(pokertable.WagerAction_Call, wager)
 		return nil
 	case "check":
+		updateWagerAction := br.wagerActionUpdater()
 		err := br.actions.Check()
 		if err != nil {
 			return err
 		}
 
-		br.updateWagerAction(pokertable.WagerAction_Check, 0)
+		updateWagerAction(pokertable.WagerAction_Check, 0)
 		return nil
 	case "allin":
 		// TODO: should move logic to pokertable
@@ -365,26 +370,30 @@ func (br *botRunner) requestAI(gs *pokerface.GameState, playerIdx int) error {
 			wager = br.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).StackSize
 		}
 
+		updateWagerAction := br.wagerActionUpdater()
 		err := br.actions.Allin()
 		if err != nil {
 			return err
 		}
 
-		br.updateWagerAction(pokertable.WagerAction_AllIn, wager)
+		updateWagerAction(pokertable.WagerAction_AllIn, wager)
 		return nil
 	}
 
+	updateWagerAction := br.wagerActionUpdater()
 	err := br.actions.Fold()
 	if err != nil {
 		return err
 	}
 
-	br.updateWagerAction(pokertable.WagerAction_Fold, 0)
+	updateWagerAction(pokertable.WagerAction_Fold, 0)
 	return nil
 }
 
-func (br *botRunner) updateWagerAction(action string, chips int64) {
+// wagerActionUpdater returns the announcement of the move about to be made (the table may go on before the move returns).
+func (br *botRunner) wagerActionUpdater() func(action string, chips int64) {
 	tableID := ""
+	gameID := br.curGameID
 	gameCount := 0
 	round := ""
 	if br.tableInfo != nil {
@@ -395,5 +404,8 @@ func (br *botRunner) updateWagerAction(action string, chips int64) {
 			round = br.tableInfo.State.GameState.Status.Round
 		}
 	}
-	br.onTableGameWagerActionUpdated(tableID, br.curGameID, gameCount, round, action, chips)
+
+	return func(action string, chips int64) {
+		br.onTableGameWagerActionUpdated(tableID, gameID, gameCount, round, action, chips)
+	}
 }
diff --git a/actor/player_runner.go b/actor/player_runner.go
index 3f29fff..26203c6 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -229,22 +229,24 @@ func (pr *PlayerRunner) automate(gs *pokerface.GameState, playerIdx int) error {
 		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO READY\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, gs.Status.Round, pr.status)
 		return nil
 	} else if gs.HasAction(playerIdx, "check") {
+		updateWagerAction := pr.wagerActionUpdater()
 		err := pr.actions.Check()
 		if err != nil {
 			return err
 		}
 
 		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO CHECK\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, gs.Status.Round, pr.status)
-		pr.updateWagerAction(pokertable.WagerAction_Check, 0)
+		updateWagerAction(pokertable.WagerAction_Check, 0)
 		return nil
 	} else if gs.HasAction(playerIdx, "fold") {
+		updateWagerAction := pr.wagerActionUpdater()
 		err := pr.actions.Fold()
 		if err != nil {
 			return err
 		}
 
 		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO FOLD\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, gs.Status.Round, pr.status)
-		pr.updateWagerAction(pokertable.WagerAction_Fold, 0)
+		updateWagerAction(pokertable.WagerAction_Fold, 0)
 		return nil
 	}
 
@@ -342,13 +344,14 @@ func (pr *PlayerRunner) Pay(chips int64) error {
 func (pr *PlayerRunner) Check() error {
 
 	pending := pr.timebank
+	updateWagerAction := pr.wagerActionUpdater()
 	err := pr.actions.Check()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.updateWagerAction(pokertable.WagerAction_Check, 0)
+	updateWagerAction(pokertable.WagerAction_Check, 0)
 	pending.Cancel()
 
 	return nil
@@ -357,13 +360,14 @@ func (pr *PlayerRunner) Check() error {
 func (pr *PlayerRunner) Bet(chips int64) error {
 
 	pending := pr.timebank
+	updateWagerAction := pr.wagerActionUpdater()
 	err := pr.actions.Bet(chips)
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.updateWagerAction(pokertable.WagerAction_Bet, chips)
+	updateWagerAction(pokertable.WagerAction_Bet, chips)
 	pending.Cancel()
 
 	return nil
@@ -379,13 +383,14 @@ func (pr *PlayerRunner) Call() error {
 	}
 
 	pending := pr.timebank
+	updateWagerAction := pr.wagerActionUpdater()
 	err := pr.actions.Call()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.updateWagerAction(pokertable.WagerAction_Call, wager)
+	updateWagerAction(pokertable.WagerAction_Call, wager)
 	pending.Cancel()
 
 	return nil
@@ -394,12 +399,13 @@ func (pr *PlayerRunner) Call() error {
 func (pr *PlayerRunner) Fold() error {
 	pr.Resume()
 	pending := pr.timebank
+	updateWagerAction := pr.wagerActionUpdater()
 	err := pr.actions.Fold()
 	if err != nil {
 		return err
 	}
 
-	pr.updateWagerAction(pokertable.WagerAction_Fold, 0)
+	updateWagerAction(pokertable.WagerAction_Fold, 0)
 	pending.Cancel()
 
 	return nil
@@ -414,13 +420,14 @@ func (pr *PlayerRunner) Allin() error {
 	}
 
 	pending := pr.timebank
+	updateWagerAction := pr.wagerActionUpdater()
 	err := pr.actions.Allin()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.updateWagerAction(pokertable.WagerAction_AllIn, wager)
+	updateWagerAction(pokertable.WagerAction_AllIn, wager)
 	pending.Cancel()
 
 	return nil
@@ -429,13 +436,14 @@ func (pr *PlayerRunner) Allin() error {
 func (pr *PlayerRunner) Raise(chipLevel int64) error {
 
 	pending := pr.timebank
+	updateWagerAction := pr.wagerActionUpdater()
 	err := pr.actions.Raise(chipLevel)
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.updateWagerAction(pokertable.WagerAction_Raise, chipLevel)
+	updateWagerAction(pokertable.WagerAction_Raise, chipLevel)
 	pending.Cancel()
 
 	return nil
@@ -460,8 +468,10 @@ func (pr *PlayerRunner) IsAutoMode() (string, bool) {
 	return tableID, isOn
 }
 
-func (pr *PlayerRunner) updateWagerAction(action string, chips int64) {
+// wagerActionUpdater returns the announcement of the move about to be made (the table may go on before the move returns).
+func (pr *PlayerRunner) wagerActionUpdater() func(action string, chips int64) {
 	tableID := ""
+	gameID := pr.curGameID
 	gameCount := 0
 	round := ""
 	if pr.tableInfo != nil {
@@ -472,7 +482,10 @@ func (pr *PlayerRunner) updateWagerAction(action string, chips int64) {
 			round = pr.tableInfo.State.GameState.Status.Round
 		}
 	}
-	pr.onTableGameWagerActionUpdated(tableID, pr.curGameID, gameCount, round, action, chips)
+
+	return func(action string, chips int64) {
+		pr.onTableGameWagerActionUpdated(tableID, gameID, gameCount, round, action, chips)
+	}
 }
 
 func (pr *PlayerRunner) updateAutoMode(isOn bool) {
-- 
2.43.0


From 30fe7439cfdb4f0e766aa7042432122ad1628bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:27 +0000
Subject: [PATCH 39/43] fix: an outdated table state does not replace the one
 moves are announced from

---
 actor/bot_runner.go    | 5 ++++-
 actor/player_runner.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index c51f3dd..9ee11fe 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -83,7 +83,10 @@ func (br *botRunner) UpdateTableState(table *pokertable.Table) error {
 
 	gs := table.State.GameState
 	//oldState := br.tableInfo.State
-	br.tableInfo = table
+	// An outdated state must not replace the current one
+	if gs == nil || gs.GameID != br.curGameID || gs.UpdatedAt >= br.lastGameStateTime {
+		br.tableInfo = table
+	}
 
 	// Check if you have been eliminated
 	isEliminated := true
diff --git a/actor/player_runner.go b/actor/player_runner.go
index 26203c6..f2fd70d 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -63,7 +63,10 @@ func (pr *PlayerRunner) SetEventSubscribed(isEventSubscribed bool) {
 func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 
 	// gs := table.State.GameState
-	pr.tableInfo = table
+	// An outdated state must not replace the current one
+	if table.State.GameState == nil || table.State.GameState.UpdatedAt >= pr.lastGameStateTime {
+		pr.tableInfo = table
+	}
 
 	// Emit event
 	// TODO: ask Fred if emit event unconditionally is okay
-- 
2.43.0


From d8fe629c6f433615e6abfbbe6835c231e3d41e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:48 +0000
Subject: [PATCH 40/43] fix: a competition closed while its start is announced
 does not start its table

---
 competition_engine_internal.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index b891527..0162008 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -87,6 +87,11 @@ func (ce *competitionEngine) handleCompetitionTableCreated(table pokertable.Tabl
 
 		ce.updateTableBlind(table.ID)
 
+		// 賽事已結算，不再處理
+		if ce.isEndStatus() {
+			return
+		}
+
 		if err := ce.tableManagerBackend.StartTableGame(table.ID); err != nil {
 			ce.emitErrorEvent("CT Auto StartTableGame", "", err)
 			return
@@ -117,6 +122,11 @@ func (ce *competitionEngine) handleCompetitionTableCreated(table pokertable.Tabl
 
 		ce.updateTableBlind(table.ID)
 
+		// 賽事已結算，不再處理
+		if ce.isEndStatus() {
+			return
+		}
+
 		if err := ce.tableManagerBackend.StartTableGame(table.ID); err != nil {
 			ce.emitErrorEvent("Cash Auto StartTableGame", "", err)
 			return
-- 
2.43.0


From 9b60c8d5940f5c83c46b66f6a37b2b448200c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:16 +0000
Subject: [PATCH 41/43] fix: bot runner ignores late states of the previous
 game

---
 actor/bot_runner.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index 9ee11fe..f5b1e87 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -44,6 +44,7 @@ type botRunner struct {
 	playerID                       string
 	isHumanized                    bool
 	curGameID                      string
+	prevGameID                     string
 	lastGameStateTime              int64
 	timebank                       *timebank.TimeBank
 	tableInfo                      *pokertable.Table
@@ -84,7 +85,7 @@ func (br *botRunner) UpdateTableState(table *pokertable.Table) error {
 	gs := table.State.GameState
 	//oldState := br.tableInfo.State
 	// An outdated state must not replace the current one
-	if gs == nil || gs.GameID != br.curGameID || gs.UpdatedAt >= br.lastGameStateTime {
+	if gs == nil || (gs.GameID != br.curGameID && gs.GameID != br.prevGameID) || (gs.GameID == br.curGameID && gs.UpdatedAt >= br.lastGameStateTime) {
 		br.tableInfo = table
 	}
 
@@ -117,6 +118,12 @@ func (br *botRunner) UpdateTableState(table *pokertable.Table) error {
 
 		// New game
 		if gs.GameID != br.curGameID {
+			// A late state of the previous game is outdated
+			if gs.GameID == br.prevGameID {
+				return nil
+			}
+
+			br.prevGameID = br.curGameID
 			br.curGameID = gs.GameID
 		} else if br.lastGameStateTime >= gs.UpdatedAt {
 			// Ignore if game state is too old
-- 
2.43.0


From cbef87c8c68401be11d568bbc09d1c430360b500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:16 +0000
Subject: [PATCH 42/43] fix: player runner keeps its game when a late state of
 an earlier game arrives

---
 actor/player_runner.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index f2fd70d..3f22fb0 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -92,17 +92,17 @@ func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 	// The state remains unchanged or is outdated
 	if gs != nil {
 
-		// New game
-		if gs.GameID != pr.curGameID {
-			pr.curGameID = gs.GameID
-		}
-
 		//fmt.Println(br.lastGameStateTime, br.tableInfo.State.GameState.UpdatedAt)
 		if pr.lastGameStateTime >= gs.UpdatedAt {
 			fmt.Printf("[DEBUG#PlayerRunner#UpdateTableState] [1] No reaction required since lastGameStateTime >= currentGameStateTime. PlayerID: %s, TableID: %s\n", pr.playerID, table.ID)
 			return nil
 		}
 
+		// New game
+		if gs.GameID != pr.curGameID {
+			pr.curGameID = gs.GameID
+		}
+
 		pr.lastGameStateTime = gs.UpdatedAt
 
 		// An automatic move still pending belongs to an outdated state
-- 
2.43.0


From 8535156b29db4de160d79c5c168476b054b80c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:31 +0000
Subject: [PATCH 43/43] fix: bot runner knows the hands it sat out, so their
 late states are outdated too

---
 actor/bot_runner.go | 55 +++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index f5b1e87..c44a59a 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -84,11 +84,37 @@ func (br *botRunner) UpdateTableState(table *pokertable.Table) error {
 
 	gs := table.State.GameState
 	//oldState := br.tableInfo.State
+	// The state remains unchanged or is outdated
+	isOutdated := false
+	if gs != nil {
+
+		if gs.GameID == br.prevGameID {
+			// A late state of the previous game is outdated
+			isOutdated = true
+		} else if gs.GameID == br.curGameID && gs.UpdatedAt <= br.lastGameStateTime {
+			isOutdated = true
+		}
+	}
+
 	// An outdated state must not replace the current one
-	if gs == nil || (gs.GameID != br.curGameID && gs.GameID != br.prevGameID) || (gs.GameID == br.curGameID && gs.UpdatedAt >= br.lastGameStateTime) {
+	if !isOutdated || (gs.GameID == br.curGameID && gs.UpdatedAt == br.lastGameStateTime) {
 		br.tableInfo = table
 	}
 
+	if gs != nil && !isOutdated {
+
+		// New game
+		if gs.GameID != br.curGameID {
+			br.prevGameID = br.curGameID
+			br.curGameID = gs.GameID
+		}
+
+		br.lastGameStateTime = gs.UpdatedAt
+
+		// A move still being thought about belongs to an outdated state
+		br.timebank.Cancel()
+	}
+
 	// Check if you have been eliminated
 	isEliminated := true
 	shouldAutoJoin := false
@@ -113,29 +139,10 @@ func (br *botRunner) UpdateTableState(table *pokertable.Table) error {
 		return nil
 	}
 
-	// The state remains unchanged or is outdated
-	if gs != nil {
-
-		// New game
-		if gs.GameID != br.curGameID {
-			// A late state of the previous game is outdated
-			if gs.GameID == br.prevGameID {
-				return nil
-			}
-
-			br.prevGameID = br.curGameID
-			br.curGameID = gs.GameID
-		} else if br.lastGameStateTime >= gs.UpdatedAt {
-			// Ignore if game state is too old
-			//fmt.Println(br.playerID, table.ID)
-			// fmt.Printf("[DEBUG#botRunner#UpdateTableState] [2] No reaction required since lastGameStateTime >= currentGameStateTime. Bot PlayerID: %s, TableID: %s\n", br.playerID, table.ID)
-			return nil
-		}
-
-		br.lastGameStateTime = gs.UpdatedAt
-
-		// A move still being thought about belongs to an outdated state
-		br.timebank.Cancel()
+	// Ignore if game state is too old
+	if isOutdated {
+		// fmt.Printf("[DEBUG#botRunner#UpdateTableState] [2] No reaction required since lastGameStateTime >= currentGameStateTime. Bot PlayerID: %s, TableID: %s\n", br.playerID, table.ID)
+		return nil
 	}
 
 	if table.State.Status != pokertable.TableStateStatus_TableGamePlaying {
-- 
2.43.0

