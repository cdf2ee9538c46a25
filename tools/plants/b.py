B = "competition_engine_internal.go"
E_ = "competition_engine.go"
R = "rank.go"

plant("c08-refund-queue", "C08",
  [(E_, "		if playerID == waitingPlayerID {\n			continue\n		}\n", "		if playerID == waitingPlayerID {\n			break\n		}\n")],
  '''
		f := create(setting(pc.CompetitionMode_MTT))
		for _, id := range []string{"a", "b", "c", "d"} {
			f.buyIn(id, 100)
		}
		if err := f.ce.PlayerRefund("b"); err != nil {
			fail("refund: %v", err)
		}
		f.ce.StartCompetition()
		wait(time.Second)
		seated := 0
		for _, t := range f.tables {
			seated += len(t.State.PlayerStates)
		}
		if seated != 3 {
			fail("%d of the 3 remaining players are placed", seated)
		}
''',
  "A registered MTT player is refunded before the start while players who registered later still wait.",
  "The players behind the refunded one in the placement queue are forgotten and never get a table.")

plant("c09-same-hand-number", "C09",
  [(B, '	gameSettledRecordID := fmt.Sprintf("%s.%d", table.ID, table.State.GameCount)\n', '	gameSettledRecordID := fmt.Sprintf("%d.%d", table.State.StartAt, table.State.GameCount)\n')],
  '''
		f := create(setting(pc.CompetitionMode_MTT))
		for i := 0; i < 12; i++ {
			f.buyIn(fmt.Sprint("p", i), 100)
		}
		f.ce.StartCompetition()
		wait(time.Second)
		if len(f.order) != 2 {
			fail("%d tables", len(f.order))
		}
		for _, id := range f.order {
			ps := f.tables[id].State.PlayerStates
			after := map[string]int64{}
			for _, p := range ps {
				after[p.PlayerID] = 100
			}
			after[ps[0].PlayerID], after[ps[1].PlayerID] = 150, 50
			f.settle(id, after)
			if c := f.player(ps[0].PlayerID).Chips; c != 150 {
				fail("the winner of table %s has %d chips", id, c)
			}
		}
''',
  "Two tables of an MTT whose first hands opened in the same second settle hands with the same number.",
  "The second table's hand is taken for a repetition of the first one's and never applied.")

plant("c10-winner-index", "C10",
  [(B, "		gsPlayer := gs.GetPlayer(winnerGameIdx)\n", "		gsPlayer := gs.GetPlayer(tablePlayerIdx)\n		if gsPlayer == nil {\n			gsPlayer = gs.GetPlayer(winnerGameIdx)\n		}\n")],
  '''
		f := create(setting(pc.CompetitionMode_CT))
		for _, id := range []string{"a", "b", "c"} {
			f.buyIn(id, 100)
		}
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		// a sits out
		f.settleQuiet("t1", map[string]int64{"b": 150, "c": 50})
		gs := f.tables["t1"].State.GameState
		gs.Players[0].Combination = &pokerface.CombinationInfo{Type: "Flush", Cards: []string{"S2", "S3"}, Power: 70}
		gs.Players[1].Combination = &pokerface.CombinationInfo{Type: "Pair", Cards: []string{"D2", "D3"}, Power: 20}
		f.ce.UpdateTable(clone(f.tables["t1"]))
		if w := f.player("b").BestWinningType; w != "Flush" {
			fail("best winning combination of the winner is %q", w)
		}
''',
  "A hand in which a player seated before the winner sits out.",
  "The winner's best combination is that of another player of the hand.")

plant("c12-quit-in-window", "C12",
  [(E_, "		cp.Status = CompetitionPlayerStatus_ReBuyWaiting\n		cp.IsReBuying = false\n		cp.ReBuyEndAt = UnsetValue\n		cp.CurrentSeat = UnsetValue\n		ce.refreshPlayerStatusStatistics()\n		ce.mu.Unlock()\n",
        "		if cp.Status != CompetitionPlayerStatus_ReBuyWaiting {\n			cp.Status = CompetitionPlayerStatus_ReBuyWaiting\n			cp.IsReBuying = false\n			cp.ReBuyEndAt = UnsetValue\n		}\n		cp.CurrentSeat = UnsetValue\n		ce.refreshPlayerStatusStatistics()\n		ce.mu.Unlock()\n")],
  '''
		f := create(setting(pc.CompetitionMode_CT))
		for _, id := range []string{"a", "b", "c"} {
			f.buyIn(id, 100)
		}
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		f.settle("t1", map[string]int64{"a": 0, "b": 200, "c": 100})
		wait(2 * time.Second)
		if err := f.ce.PlayerQuit("t1", "a"); err != nil {
			fail("quit: %v", err)
		}
		wait(20 * time.Second)
		if n := f.count("PlayersLeave"); n != 1 {
			fail("player a left the table %d times", n)
		}
''',
  "A busted player quits while its re-buy window is running.",
  "The window goes on after the quit: when it lapses the player is taken off the table a second time.")

plant("c15-late-knockouts", "C15",
  [(R, "		if player.Chips > 0 {\n			playingPlayers = append(playingPlayers, *player)\n		}\n	}\n\n	// sort result\n	sort.Slice(playingPlayers, func(i int, j int) bool {\n		// 依照 Chips",
       "		if player.Chips > 0 && player.Status == CompetitionPlayerStatus_Playing {\n			playingPlayers = append(playingPlayers, *player)\n		}\n	}\n\n	// sort result\n	sort.Slice(playingPlayers, func(i int, j int) bool {\n		// 依照 Chips")],
  '''
		f := create(setting(pc.CompetitionMode_MTT))
		for i := 0; i < 6; i++ {
			f.buyIn(fmt.Sprint("p", i), 100)
		}
		f.ce.StartCompetition()
		wait(time.Second)
		// one more than the only table has room for: waits for placement
		f.fail = func(c cmd) error {
			if c.Kind == "CreateTable" {
				return errors.New("no room")
			}
			return nil
		}
		f.buyIn("late", 100)
		f.fail = nil
		if st := f.player("late").Status; st != pc.CompetitionPlayerStatus_WaitingTableBalancing {
			panic(st)
		}
		f.ce.CloseCompetition(pc.CompetitionStateStatus_ForceEnd)
		if n := len(f.ce.GetCompetition().State.Rankings); n != 7 {
			fail("%d of 7 chip holders are ranked", n)
		}
''',
  "A competition is closed while a player with chips waits for a table.",
  "The waiting chip holder is missing from the final rankings.")

plant("c18-shared-table", "C18",
  [(E_, "	ce.competition.State.Tables[tableIdx] = &cloneTable\n", "	cloneTable.State.PlayerStates = table.State.PlayerStates\n	ce.competition.State.Tables[tableIdx] = &cloneTable\n")],
  '''
		f := create(setting(pc.CompetitionMode_CT))
		f.buyIn("a", 100)
		f.buyIn("b", 100)
		t := clone(f.tables["t1"])
		t.State.Status = pokertable.TableStateStatus_TableGameStandby
		f.ce.UpdateTable(t)
		t.State.PlayerStates[0].Bankroll = 7
		if b := f.ce.GetCompetition().State.Tables[0].State.PlayerStates[0].Bankroll; b != 100 {
			fail("the published table changed without a report: %d", b)
		}
''',
  "The reporter goes on changing the players of a table it has reported.",
  "The published table shares its player list with the reporter's table.")

plant("c19-second-break", "C19",
  [(B, "	if _, exist := ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex]; !exist {\n		ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] = false\n",
       "	if len(ce.breakingPauseResumeStates[tableID]) == 0 {\n		ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] = false\n")],
  '''
		s := setting(pc.CompetitionMode_CT)
		s.Meta.Blind.FinalBuyInLevelIndex = 9
		s.Meta.Blind.Levels = []pc.BlindLevel{level(1, 100, 5), {Level: -1, Duration: 20}, level(2, 100, 10), {Level: -1, Duration: 20}, level(3, 100, 20)}
		f := create(s)
		f.buyIn("a", 100)
		f.buyIn("b", 100)
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		f.settle("t1", map[string]int64{"a": 50, "b": 150})
		for i := 0; i < 2; i++ {
			n := f.count("SetUpTableGame")
			wait(101 * time.Second)
			f.report("t1", pokertable.TableStateStatus_TablePausing)
			wait(20 * time.Second)
			if f.count("SetUpTableGame") != n+1 {
				fail("break %d: play was resumed %d times", i+1, f.count("SetUpTableGame")-n)
			}
			f.settle("t1", map[string]int64{"a": 50, "b": 150})
		}
''',
  "A blind structure with two breaks, the same table present in both.",
  "A table is resumed only after the first break it sees.")

plant("c22-compact-index", "C22",
  [(B, "	for idx, p := range players {\n		if p.Bankroll > 0 && p.IsIn {\n			aliveParticipants[p.PlayerID] = idx\n		}\n	}\n",
       "	for _, p := range players {\n		if p.Bankroll > 0 && p.IsIn {\n			aliveParticipants[p.PlayerID] = len(aliveParticipants)\n		}\n	}\n")],
  '''
		f := create(setting(pc.CompetitionMode_CT))
		for _, id := range []string{"a", "b", "c"} {
			f.buyIn(id, 100)
		}
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		f.tables["t1"].State.PlayerStates[0].IsIn = false
		f.report("t1", pokertable.TableStateStatus_TablePausing)
		c := f.last("SetUpTableGame")
		if c == nil || c.Part["b"] != 1 || c.Part["c"] != 2 {
			fail("participants %v", c)
		}
''',
  "A player seated before an eligible one is not joined or has no chips.",
  "The participants are handed over with wrong positions.")

plant("c23-lone-table", "C23",
  [(B, "len(alivePlayerIDs) == 1 && len(ce.competition.State.Tables) == 1\n", "len(alivePlayerIDs) == 1 && (len(ce.competition.State.Tables) == 1 || ce.competition.GetPlayerCountByStatus(CompetitionPlayerStatus_WaitingTableBalancing) > 0)\n")],
  '''
		s := setting(pc.CompetitionMode_MTT)
		s.Meta.TableMaxSeatCount = 3
		s.Meta.RegulatorMinInitialPlayerCount = 2
		s.Meta.Blind.FinalBuyInLevelIndex = -1
		f := create(s)
		for i := 0; i < 6; i++ {
			f.buyIn(fmt.Sprint("p", i), 100)
		}
		f.ce.StartCompetition()
		wait(time.Second)
		if len(f.order) != 2 {
			fail("%d tables", len(f.order))
		}
		ps := f.tables[f.order[0]].State.PlayerStates
		f.settle(f.order[0], map[string]int64{ps[0].PlayerID: 300, ps[1].PlayerID: 0, ps[2].PlayerID: 0})
		wait(10 * time.Second)
		if st := f.ce.GetCompetition().State.Status; st != pc.CompetitionStateStatus_StoppedBuyIn {
			fail("status %s although four players hold chips", st)
		}
''',
  "After buy-in stopped a table is broken up with a single chip holder left, while other tables still play.",
  "The whole competition is ended.")

plant("c25-empty-by-moves", "C25",
  [(B, "			currentTablePlayerCount = len(tablePlayerSeatMap)\n", "			currentTablePlayerCount -= len(zeroChipPlayerIDs)\n")],
  '''
		s := setting(pc.CompetitionMode_MTT)
		s.Meta.TableMaxSeatCount = 3
		s.Meta.RegulatorMinInitialPlayerCount = 2
		s.Meta.Blind.FinalBuyInLevelIndex = -1
		f := create(s)
		for i := 0; i < 6; i++ {
			f.buyIn(fmt.Sprint("p", i), 100)
		}
		f.ce.StartCompetition()
		wait(time.Second)
		for i, id := range f.order {
			ps := f.tables[id].State.PlayerStates
			after := map[string]int64{ps[0].PlayerID: 250, ps[1].PlayerID: 50, ps[2].PlayerID: 0}
			if i == 1 {
				after = map[string]int64{ps[0].PlayerID: 300, ps[1].PlayerID: 0, ps[2].PlayerID: 0}
			}
			f.settle(id, after)
			wait(time.Second)
		}
		for _, id := range f.order {
			if t := f.tables[id]; len(t.State.PlayerStates) == 0 {
				closed := false
				for _, c := range f.cmds {
					closed = closed || c.Kind == "CloseTable" && c.Table == id
				}
				if !closed {
					fail("the empty table %s stays open", id)
				}
			}
		}
''',
  "A table is emptied because its last chip holders are moved away, not by bust-outs alone.",
  "The emptied table is never closed.")

plant("c26-tables-at-start", "C26",
  [(B, "		ce.competition.State.AdvanceState.TotalTables = len(ce.competition.State.Tables)\n		shouldAdvancePauseTableGame := false\n",
       "		shouldAdvancePauseTableGame := false\n")],
  '''
		s := setting(pc.CompetitionMode_MTT)
		s.Meta.TableMaxSeatCount = 3
		s.Meta.RegulatorMinInitialPlayerCount = 2
		s.Meta.Blind.FinalBuyInLevelIndex = -1
		s.Meta.AdvanceSetting = pc.AdvanceSetting{Rule: pc.CompetitionAdvanceRule_BlindLevel, BlindLevel: 2}
		f := create(s)
		for i := 0; i < 6; i++ {
			f.buyIn(fmt.Sprint("p", i), 100)
		}
		f.ce.StartCompetition()
		wait(time.Second)
		for _, id := range f.order[:2] {
			ps := f.tables[id].State.PlayerStates
			f.settle(id, map[string]int64{ps[0].PlayerID: 300, ps[1].PlayerID: 0, ps[2].PlayerID: 0})
			wait(time.Second)
			if len(f.tables[id].State.PlayerStates) == 0 {
				f.report(id, pokertable.TableStateStatus_TableClosed)
			}
		}
		wait(101 * time.Second)
		for _, id := range f.order {
			ps := f.tables[id].State.PlayerStates
			if len(ps) < 2 {
				continue
			}
			after := map[string]int64{}
			for _, p := range ps {
				after[p.PlayerID] = p.Bankroll
			}
			f.settle(id, after)
		}
		wait(5 * time.Second)
		if st := f.ce.GetCompetition().State.Status; st != pc.CompetitionStateStatus_End {
			fail("every table is paused for the advancement, but the competition is %s", st)
		}
''',
  "A table is broken up between the stop of buy-in and the advancement target.",
  "The advancement waits for a table that no longer exists and never ends.")

plant("c28-leaving-bust", "C28",
  [(B, "	// 更新玩家相關賽事數據\n	ce.updatePlayerCompetitionTableRecords(table)\n\n	// 根據是否達到停止買入做處理\n	ce.handleReBuy(table)\n",
       "	if ce.competition.Meta.Mode == CompetitionMode_Cash {\n		ce.handleCashTableSettlement(table)\n	}\n\n	// 更新玩家相關賽事數據\n	ce.updatePlayerCompetitionTableRecords(table)\n\n	// 根據是否達到停止買入做處理\n	ce.handleReBuy(table)\n")],
  '''
		s := setting(pc.CompetitionMode_Cash)
		s.Meta.Blind.FinalBuyInLevelIndex = -2
		s.Meta.ReBuySetting.MaxTime = 10000
		f := create(s)
		for _, id := range []string{"a", "b", "c"} {
			f.buyIn(id, 100)
		}
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		f.report("t1", pokertable.TableStateStatus_TableGamePlaying)
		if err := f.ce.PlayerCashOut("t1", "a"); err != nil {
			fail("cash-out: %v", err)
		}
		f.settle("t1", map[string]int64{"a": 180, "b": 20, "c": 100})
		wait(time.Second)
		if len(f.cash) != 1 || f.cash[0].Chips != 180 {
			fail("paid out: %v", f.cash)
		}
''',
  "A cash player asks to leave during a hand that changes its chips.",
  "The player is paid the chips it had before the hand.")

plant("c24-rebuy-old-table", "C24",
  [(E_, '		if ce.competition.Meta.Mode == CompetitionMode_MTT {\n			cp.CurrentTableID = "" // re-buy 時要清空 CurrentTableID 等待重新配桌\n			cp.CurrentSeat = UnsetValue\n		}\n',
        '		if ce.competition.Meta.Mode == CompetitionMode_MTT {\n			cp.CurrentSeat = UnsetValue\n		}\n')],
  '''
		f := create(setting(pc.CompetitionMode_MTT))
		for i := 0; i < 6; i++ {
			f.buyIn(fmt.Sprint("p", i), 100)
		}
		f.ce.StartCompetition()
		wait(time.Second)
		for i := 0; i < 6; i++ { // seats are told
			for _, p := range f.tables[f.order[0]].State.PlayerStates {
				q := *p
				f.ce.UpdateReserveTablePlayerState(f.order[0], &q)
			}
		}
		f.settle(f.order[0], map[string]int64{"p0": 0, "p1": 200, "p2": 100, "p3": 100, "p4": 100, "p5": 100})
		wait(time.Second)
		f.buyIn("q", 100) // takes the free seat
		wait(time.Second)
		f.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: "p0", RedeemChips: 100, Unit: 1})
		if p := f.player("p0"); p.Status != pc.CompetitionPlayerStatus_WaitingTableBalancing || p.CurrentTableID != "" {
			fail("p0 waits for a table (%s) but its record names table %q", p.Status, p.CurrentTableID)
		}
''',
  "A busted MTT player re-buys while no table has a free seat.",
  "The waiting player's record still names the table it left.")

plant("c17-addon-units", "C17",
  [(E_, "	cp.Chips += joinPlayer.RedeemChips\n	cp.AddonTimes++\n", "	cp.Chips += joinPlayer.RedeemChips * int64(joinPlayer.Unit)\n	cp.AddonTimes++\n")],
  '''
		f := create(setting(pc.CompetitionMode_CT))
		f.buyIn("a", 100)
		f.buyIn("b", 100)
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		if err := f.ce.PlayerAddon("t1", pc.JoinPlayer{PlayerID: "a", RedeemChips: 200, Unit: 2}); err != nil {
			fail("add-on: %v", err)
		}
		if c := f.player("a").Chips; c != 300 {
			fail("a redeemed 300 chips and has %d", c)
		}
''',
  "An add-on of more than one unit.",
  "The player is credited with more chips than were redeemed and than its table was given.")

plant("c07-addon-limit-units", "C07",
  [(E_, "	cp.AddonTimes++\n", "	if ce.competition.IsBreaking() || !ce.competition.Meta.AddonSetting.IsBreakOnly {\n		cp.AddonTimes = cp.ReBuyTimes + 1\n	}\n")],
  '''
		f := create(setting(pc.CompetitionMode_CT))
		f.buyIn("a", 100)
		f.buyIn("b", 100)
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		n := 0
		for i := 0; i < 5; i++ {
			if f.ce.PlayerAddon("t1", pc.JoinPlayer{PlayerID: "a", RedeemChips: 100, Unit: 1}) == nil {
				n++
			}
		}
		if n != 2 {
			fail("%d add-ons granted, the limit is 2", n)
		}
''',
  "A player asks for a further add-on after its first one.",
  "Add-ons are counted wrongly, so that the limit is not applied.")

plant("c06-full-table", "C06",
  [(E_, "				if competitionPlayerCount+reBuyPlayerCount >= ce.competition.State.Tables[0].Meta.TableMaxSeatCount {\n",
        "				if competitionPlayerCount >= ce.competition.State.Tables[0].Meta.TableMaxSeatCount || len(ce.competition.State.Tables[0].State.PlayerStates) >= ce.competition.State.Tables[0].Meta.TableMaxSeatCount+reBuyPlayerCount {\n")],
  '''
		s := setting(pc.CompetitionMode_CT)
		s.Meta.TableMaxSeatCount = 3
		f := create(s)
		for _, id := range []string{"a", "b", "c"} {
			f.buyIn(id, 100)
		}
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		f.settle("t1", map[string]int64{"a": 0, "b": 200, "c": 100})
		if err := f.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: "d", RedeemChips: 100, Unit: 1}); err != pc.ErrCompetitionBuyInRejected {
			fail("a buy-in into the table filled by a re-buy waiting player: %v", err)
		}
''',
  "A new player buys into a CT whose last seat belongs to a player in its re-buy window.",
  "The buy-in is accepted and the table has more players than seats.")

plant("c16-waiter-order", "C16",
  [(B, "			return reBuyWaitingPlayers[i].ReBuyWaitingAt > reBuyWaitingPlayers[j].ReBuyWaitingAt\n", "			return reBuyWaitingPlayers[i].ReBuyEndAt > reBuyWaitingPlayers[j].ReBuyEndAt || reBuyWaitingPlayers[i].JoinAt < reBuyWaitingPlayers[j].JoinAt\n")],
  '''
		s := setting(pc.CompetitionMode_MTT)
		f := create(s)
		for i := 0; i < 5; i++ {
			f.buyIn(fmt.Sprint("p", i), 100)
			wait(time.Second)
		}
		f.ce.StartCompetition()
		wait(time.Second)
		f.settle(f.order[0], map[string]int64{"p0": 0, "p1": 200, "p2": 100, "p3": 100, "p4": 100})
		wait(2 * time.Second)
		f.settle(f.order[0], map[string]int64{"p1": 0, "p2": 300, "p3": 100, "p4": 100})
		wait(2 * time.Second)
		if a, b := f.player("p0").CompetitionRank, f.player("p1").CompetitionRank; b > a {
			fail("p0 busted first and ranks %d, p1 busted later and ranks %d", a, b)
		}
''',
  "Two MTT players wait to re-buy, the earlier joiner having busted first.",
  "Re-buy waiters are ranked by join time instead of bust time.")

plant("c13-unlimited-buyin", "C13",
  [("competition.go", "	if bs.FinalBuyInLevelIndex == NoStopBuyInIndex {\n		return false\n	}\n", "	if bs.FinalBuyInLevelIndex == NoStopBuyInIndex {\n		return bs.CurrentLevelIndex > 0 && bs.CurrentLevelIndex == len(bs.EndAts)-1\n	}\n")],
  '''
		s := setting(pc.CompetitionMode_Cash)
		s.Meta.Blind.FinalBuyInLevelIndex = -2
		f := create(s)
		f.buyIn("a", 100)
		f.buyIn("b", 100)
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		wait(250 * time.Second)
		if st := f.ce.GetCompetition().State.Status; st != pc.CompetitionStateStatus_DelayedBuyIn {
			fail("buy-in never stops, but the status is %s", st)
		}
''',
  "A competition with unlimited buy-in reaches its last blind level.",
  "Buy-in stops at the last level.")

plant("c02-idle-seats", "C02",
  [(B, "	if currentPlayerCount >= ce.competition.Meta.MinPlayerCount {\n		// 開打條件一", "	if currentPlayerCount >= ce.competition.Meta.MinPlayerCount || (currentPlayerCount == len(ce.competition.State.Players) && currentPlayerCount > ce.competition.Meta.TableMinPlayerCount) {\n		// 開打條件一")],
  '''
		s := setting(pc.CompetitionMode_CT)
		s.Meta.MinPlayerCount = 4
		f := create(s)
		for _, id := range []string{"a", "b", "c"} {
			f.buyIn(id, 100)
		}
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		if st := f.ce.GetCompetition().State.Status; st != pc.CompetitionStateStatus_Registering {
			fail("three of the four players needed are there, the status is %s", st)
		}
''',
  "Everyone registered so far is seated, but fewer than the competition's minimum; the table minimum is smaller.",
  "A CT starts before its minimum player count is reached.")

plant("c03-disable-count", "C03",
  [(E_, "			if len(ce.competition.State.Players) < ce.competition.Meta.MinPlayerCount {\n", "			if ce.competition.State.Statistic.PlayingPlayerCount < ce.competition.Meta.MinPlayerCount {\n")],
  '''
		f := create(setting(pc.CompetitionMode_MTT))
		for i := 0; i < 4; i++ {
			f.buyIn(fmt.Sprint("p", i), 100)
		}
		wait(3601 * time.Second)
		if st := f.ce.GetCompetition().State.Status; st != pc.CompetitionStateStatus_Registering {
			fail("four players are registered, but the competition is %s at its disable time", st)
		}
''',
  "An MTT with enough registrations has not been started by its disable time.",
  "The registered players waiting for the start are not counted and the competition ends itself.")

plant("c11-other-window", "C11",
  [(B, "			for _, reBuyPlayerID := range reBuyPlayerIDs {\n				reBuyPlayerIdx :=", "			for _, waiting := range ce.competition.State.Players {\n				reBuyPlayerID := waiting.PlayerID\n				reBuyPlayerIdx :="),
   (B, "				if time.Now().Unix() <= cp.ReBuyEndAt {\n", "				if time.Now().Unix() < cp.ReBuyEndAt || !cp.IsReBuying {\n"),],
  '''
		s := setting(pc.CompetitionMode_CT)
		s.Meta.ReBuySetting = pc.ReBuySetting{MaxTime: 3, WaitingTime: 10}
		f := create(s)
		for _, id := range []string{"a", "b", "c"} {
			f.buyIn(id, 100)
		}
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		f.settle("t1", map[string]int64{"a": 0, "b": 200, "c": 100})
		wait(2 * time.Second)
		f.settle("t1", map[string]int64{"b": 0, "c": 300})
		at := time.Now().Unix() + 10
		for f.player("b").IsReBuying {
			wait(500 * time.Millisecond)
		}
		if d := time.Now().Unix() - at; d < 1 {
			fail("b's window was closed %d s after its end, the seat is kept for two", d)
		}
''',
  "Two players of one table bust in different hands within one re-buy waiting time of each other.",
  "The timer of the first bust takes the second player off its seat before its own grace time is over.")

plant("c36-silent-close", "C36",
  [(B, '	ce.emitEvent("closeCompetitionTable", "")\n	ce.emitCompetitionStateEvent(CompetitionStateEvent_TableUpdated)\n', '	if tableIdx < len(ce.competition.State.Tables) || len(ce.competition.State.Tables) == 0 {\n		ce.emitEvent("closeCompetitionTable", "")\n	}\n	ce.emitCompetitionStateEvent(CompetitionStateEvent_TableUpdated)\n')],
  '''
		s := setting(pc.CompetitionMode_MTT)
		s.Meta.TableMaxSeatCount = 3
		s.Meta.RegulatorMinInitialPlayerCount = 2
		s.Meta.Blind.FinalBuyInLevelIndex = -1
		f := create(s)
		for i := 0; i < 6; i++ {
			f.buyIn(fmt.Sprint("p", i), 100)
		}
		f.ce.StartCompetition()
		wait(time.Second)
		n := len(f.pub)
		f.report(f.order[1], pokertable.TableStateStatus_TableClosed)
		if len(f.pub) == n {
			fail("the closing of a table was not published")
		}
''',
  "The most recently created of several tables closes.",
  "Its disappearance is not published as a competition update.")

plant("c14-repeat-knockout", "C14",
  [(R, "		if isAlreadyKnockout {\n			continue\n		}\n", "		if isAlreadyKnockout && ce.competition.Meta.Mode == CompetitionMode_CT {\n			continue\n		}\n")],
  '''
		s := setting(pc.CompetitionMode_MTT)
		s.Meta.Blind.FinalBuyInLevelIndex = -1
		f := create(s)
		for i := 0; i < 5; i++ {
			f.buyIn(fmt.Sprint("p", i), 100)
		}
		f.ce.StartCompetition()
		wait(time.Second)
		id := f.order[0]
		f.fail = func(c cmd) error {
			if c.Kind == "UpdateTablePlayers" {
				return errors.New("table is busy")
			}
			return nil
		}
		f.settle(id, map[string]int64{"p0": 0, "p1": 200, "p2": 100, "p3": 100, "p4": 100})
		wait(time.Second)
		f.fail = nil
		f.settle(id, map[string]int64{"p1": 150, "p2": 150, "p3": 100, "p4": 100})
		wait(time.Second)
		n := 0
		for _, r := range f.ce.GetCompetition().State.Rankings {
			if r.PlayerID == "p0" {
				n++
			}
		}
		if n != 1 {
			fail("p0 is knocked out %d times", n)
		}
''',
  "The table refuses to let a knocked-out MTT player go, so that it is still seated when the next hand settles.",
  "The player is knocked out and ranked a second time.")
