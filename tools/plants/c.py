B = "competition_engine_internal.go"
E_ = "competition_engine.go"
M = "manager.go"
N = "native_table_manager_backend.go"
PR = "actor/player_runner.go"
BR = "actor/bot_runner.go"

plant("c01-late-table-close", "C01",
  [(E_, "	if ce.isEndStatus() {\n		// fmt.Println(\"[DEBUG#UpdateTable] status is end", "	if ce.isEndStatus() && table.State.Status != pokertable.TableStateStatus_TableClosed {\n		// fmt.Println(\"[DEBUG#UpdateTable] status is end")],
  '''
		f := create(setting(pc.CompetitionMode_CT))
		for _, id := range []string{"a", "b"} {
			f.buyIn(id, 100)
		}
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		f.ce.CloseCompetition(pc.CompetitionStateStatus_ForceEnd)
		n := len(f.states)
		f.report("t1", pokertable.TableStateStatus_TableClosed)
		if c := f.ce.GetCompetition(); len(c.State.Tables) != 1 || len(f.states) != n {
			fail("the ended competition holds %d tables and announced %v", len(c.State.Tables), f.states[n:])
		}
''',
  "A table reports that it is closed after the competition has ended.",
  "The table leaves the ended competition, which announces a change after its end.")

plant("c04-zero-start", "C04",
  [(E_, "	if competitionSetting.StartAt != UnsetValue && competitionSetting.StartAt < now.Unix() {\n", "	if competitionSetting.StartAt > 0 && competitionSetting.StartAt < now.Unix() {\n")],
  '''
		f := &fake{tables: map[string]*pokertable.Table{}}
		ce := pc.NewCompetitionEngine(pc.WithTableManagerBackend(f), pc.WithTableOptions(pokertable.NewTableEngineOptions()))
		f.ce = ce
		listen(f, ce)
		s := setting(pc.CompetitionMode_CT)
		s.StartAt = 0
		if _, err := ce.CreateCompetition(s); err != pc.ErrCompetitionInvalidCreateSetting {
			fail("a competition that started in 1970 was created: %v", err)
		}
''',
  "A creation request whose start time is zero (1970) rather than unset.",
  "A start time in the past is accepted.")

plant("c05-lapsed-rebuy", "C05",
  [(E_, "		cp.ReBuyTimes++\n		cp.IsReBuying = false\n", "		if cp.IsReBuying {\n			cp.ReBuyTimes++\n		}\n		cp.IsReBuying = false\n")],
  '''
		f := create(setting(pc.CompetitionMode_CT))
		for _, id := range []string{"a", "b", "c"} {
			f.buyIn(id, 100)
		}
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		f.settle("t1", map[string]int64{"a": 200, "b": 100, "c": 0})
		wait(20 * time.Second)
		if p := f.player("c"); p.IsReBuying {
			fail("window of c still open")
		}
		f.buyIn("c", 100)
		if n := f.player("c").ReBuyTimes; n != 1 {
			fail("c has re-bought once and is counted with %d re-buys", n)
		}
''',
  "A CT player re-buys after the re-buy window has lapsed and the seat was given up.",
  "The re-buy is not counted, so the re-buy limit does not bind.")

plant("c21-unlimited-level", "C21",
  [("blind/blind.go", "		if b.bs.Status.CurrentLevelIndex+1 < len(b.bs.Meta.Levels) {\n", "		if next := b.bs.Status.CurrentLevelIndex + 1; next < len(b.bs.Meta.Levels) && b.bs.Status.LevelEndAts[next] != UnsetValue {\n")],
  '''
		b := pokerblind.NewBlind()
		b.ApplyOptions(&pokerblind.BlindOptions{ID: "b", InitialLevel: 1, FinalBuyInLevelIndex: 0, Levels: []pokerblind.BlindLevel{
			{Level: 1, Duration: 10}, {Level: 2, Duration: 10}, {Level: 3, Duration: -1}}})
		seen := []int{}
		b.OnBlindStateUpdated(func(bs *pokerblind.BlindState) { seen = append(seen, bs.Status.CurrentLevelIndex) })
		if _, err := b.Start(); err != nil {
			fail("start: %v", err)
		}
		wait(60 * time.Second)
		if len(seen) != 2 || seen[1] != 2 {
			fail("levels visited: %v", seen)
		}
''',
  "A structure whose last level is unlimited.",
  "The unlimited last level is never entered.")

plant("c27-stop-count", "C27",
  [(B, "				// 事件通知\n				ce.refreshPlayerStatusStatistics()\n", "				// 事件通知\n")],
  '''
		f := create(setting(pc.CompetitionMode_MTT))
		for i := 0; i < 4; i++ {
			f.buyIn(fmt.Sprint("p", i), 100)
		}
		f.ce.StartCompetition()
		wait(time.Second)
		f.settle(f.order[0], map[string]int64{"p0": 200, "p1": 0, "p2": 100, "p3": 100})
		wait(250 * time.Second)
		c := f.ce.GetCompetition()
		if f.player("p1").Status != pc.CompetitionPlayerStatus_Knockout {
			fail("p1 is %v", f.player("p1").Status)
		}
		if n := c.State.Statistic.KnockoutPlayerCount; n != 1 {
			fail("one player is knocked out, %d are published", n)
		}
''',
  "Buy-in stops while a player waits for a re-buy, and no hand settles afterwards.",
  "The published counts still show the knocked-out player as waiting for a re-buy.")

plant("c29-reset-stops", "C29",
  [(M, "		if ce, ok := value.(CompetitionEngine); ok {\n			_ = ce.CloseCompetition(CompetitionStateStatus_ForceEnd)\n		}\n		return true\n",
       "		ce, ok := value.(CompetitionEngine)\n		if !ok || ce.GetCompetition().State.Status == CompetitionStateStatus_End {\n			return false\n		}\n		_ = ce.CloseCompetition(CompetitionStateStatus_ForceEnd)\n		return true\n")],
  '''
		f := &fake{tables: map[string]*pokertable.Table{}}
		m := pc.NewManager(f)
		es := []pc.CompetitionEngine{}
		for i := 0; i < 40; i++ {
			s := setting(pc.CompetitionMode_MTT)
			s.CompetitionID = fmt.Sprint("c", i)
			if _, err := m.CreateCompetition(s, pc.NewDefaultCompetitionEngineOptions()); err != nil {
				fail("create: %v", err)
			}
			e, _ := m.GetCompetitionEngine(s.CompetitionID)
			es = append(es, e)
			if i%2 == 0 {
				e.CloseCompetition(pc.CompetitionStateStatus_End)
			}
		}
		m.Reset()
		for i, e := range es {
			if st := e.GetCompetition().State.Status; st == pc.CompetitionStateStatus_Registering {
				fail("competition %d is still %v after the reset", i, st)
			}
		}
''',
  "The manager is reset while it holds competitions that have ended by themselves.",
  "Competitions visited after an ended one go on without their manager.")

plant("c30-shared-player", "C30",
  [(N, "		data, err := json.Marshal(playerState)\n", "		if playerState.IsIn {\n			ntmb.onTablePlayerReserved(tableID, playerState)\n			return\n		}\n\n		data, err := json.Marshal(playerState)\n")],
  '''
type stub struct {
	pokertable.Manager
	cb *pokertable.TableEngineCallbacks
}

func (s *stub) CreateTable(o *pokertable.TableEngineOptions, cb *pokertable.TableEngineCallbacks, t pokertable.TableSetting) (*pokertable.Table, error) {
	s.cb = cb
	return &pokertable.Table{ID: t.TableID, State: &pokertable.TableState{}}, nil
}

// ---
		s := &stub{}
		b := pc.NewNativeTableManagerBackend(s)
		var got *pokertable.TablePlayerState
		b.OnTablePlayerReserved(func(id string, p *pokertable.TablePlayerState) { got = p })
		if _, err := b.CreateTable(pokertable.NewTableEngineOptions(), pokertable.TableSetting{TableID: "t1"}); err != nil {
			fail("create: %v", err)
		}
		for _, in := range []bool{false, true} {
			p := &pokertable.TablePlayerState{PlayerID: "a", Seat: 3, IsIn: in}
			s.cb.OnTablePlayerReserved("c", "t1", p)
			p.Seat = 5
			if got == nil || got.Seat != 3 {
				fail("a reservation told earlier changed: %+v", got)
			}
		}
''',
  "A player who is already in re-buys at the table, and its seat changes while the reservation is being handled.",
  "The competition holds the table's live player state instead of a copy.")

plant("c31-reserve-unlocked", "C31",
  [(E_, '		if err := ce.tableManagerBackend.PlayerReserve(tableID, jp); err != nil {\n			ce.emitErrorEvent("PlayerBuyIn -> PlayerReserve"', '		ce.mu.Unlock()\n		err := ce.tableManagerBackend.PlayerReserve(tableID, jp)\n		ce.mu.Lock()\n		if err != nil {\n			ce.emitErrorEvent("PlayerBuyIn -> PlayerReserve"')],
  '''
		f := create(setting(pc.CompetitionMode_CT))
		f.buyIn("b", 100)
		var done atomic.Bool
		f.fail = func(c cmd) error {
			if c.Kind == "PlayerReserve" && c.Players[0] == "a" {
				go func() {
					f.ce.PlayerRefund("a")
					done.Store(true)
				}()
				for i := 0; i < 100000 && !done.Load(); i++ {
					runtime.Gosched()
				}
			}
			return nil
		}
		f.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: "a", RedeemChips: 100, Unit: 1})
		wait(time.Second)
		if f.player("a") == nil {
			for _, p := range f.tables["t1"].State.PlayerStates {
				if p.PlayerID == "a" {
					fail("a has been refunded and sits at the table")
				}
			}
		}
''',
  "A CT player is refunded in the middle of its buy-in, after the buy-in was recorded and before the table has seated the player.",
  "The table is told of the leave before the buy-in: the refunded player keeps a seat and chips at the table.")

plant("c32-blind-loop", "C32",
  [(B, "		for _, table := range ce.competition.State.Tables {\n			ce.updateTableBlind(table.ID)\n			ce.handleBreaking(table.ID)\n		}\n", "		for i, n := 0, len(ce.competition.State.Tables); i < n; i++ {\n			ce.updateTableBlind(ce.competition.State.Tables[i].ID)\n			ce.handleBreaking(ce.competition.State.Tables[i].ID)\n		}\n")],
  '''
		f := create(setting(pc.CompetitionMode_MTT))
		for i := 0; i < 12; i++ {
			f.buyIn(fmt.Sprint("p", i), 100)
		}
		f.ce.StartCompetition()
		wait(time.Second)
		if len(f.order) < 2 {
			fail("%d tables", len(f.order))
		}
		closed := false
		f.fail = func(c cmd) error {
			if c.Kind == "UpdateBlind" && c.Blind[0] == 2 && !closed {
				closed = true
				f.report(f.order[1], pokertable.TableStateStatus_TableClosed)
			}
			return nil
		}
		wait(150 * time.Second)
		if !closed {
			fail("no blind change reached a table")
		}
''',
  "A table closes while the change to the next blind level is being passed on to the tables.",
  "The blind clock crashes with an index out of range.")

plant("c33-raise-minimum", "C33",
  [(BR, "		minChipLevel := gs.Status.CurrentWager + gs.Status.PreviousRaiseSize\n", "		minChipLevel := gs.Status.CurrentWager + gs.Status.MiniBet\n")],
  '''
		r := actor.NewBotRunner("p1")
		p := sit(r)
		for i := 0; i < 200; i++ {
			t := turn("g1", int64(i+1), "flop", 1, "raise")
			gs := t.State.GameState
			gs.Status.CurrentWager, gs.Status.PreviousRaiseSize = 510, 500
			gs.Players[1].InitialStackSize, gs.Players[1].StackSize = 5000, 5000
			p.UpdateTableState(t)
		}
		if len(p.moves) != 200 {
			fail("%d moves", len(p.moves))
		}
		for _, m := range p.moves {
			var id string
			var n int64
			fmt.Sscanf(m, "raise %s %d", &id, &n)
			if n < 1010 {
				fail("%q where the smallest raise is to 1010", m)
			}
		}
''',
  "A bot raises after a raise larger than the big blind.",
  "The bot raises to less than the game accepts.")

plant("c34-call-keeps-idle", "C34",
  [(PR, "	pr.idleCount = 0\n	updateWagerAction(pokertable.WagerAction_Call, wager)\n", "	updateWagerAction(pokertable.WagerAction_Call, wager)\n")],
  '''
		r := actor.NewPlayerRunner("p1")
		auto := 0
		r.OnAutoModeUpdated(func(id string, on bool) { auto++ })
		p := sit(r)
		for i := 1; i <= 4; i++ {
			p.UpdateTableState(turn("g1", int64(i), "flop", 1, "call", "fold"))
			if i == 3 {
				if err := r.Call(); err != nil {
					fail("call: %v", err)
				}
			}
			wait(15 * time.Second)
		}
		if auto != 0 {
			fail("auto mode after one time-out since the last call; moves %v", p.moves)
		}
''',
  "A player times out twice, calls, and times out again.",
  "The time-outs before the call still count towards auto mode.")

plant("c35-view-index", "C35",
  [(PR, "		gpIdx := table.GamePlayerIndex(pr.playerID)\n", "		gpIdx := table.FindPlayerIdx(pr.playerID)\n")],
  '''
		r := actor.NewPlayerRunner("p0")
		seen := [3]int{-1, -1, -1}
		r.OnTableStateUpdated(func(t *pokertable.Table) {
			for i, p := range t.State.GameState.Players {
				seen[i] = len(p.HoleCards)
			}
		})
		p := sit(r)
		t := turn("g1", 1, "flop", 2, "check")
		// someone in front of them sits out
		t.State.PlayerStates = append([]*pokertable.TablePlayerState{{PlayerID: "x", Seat: 5, IsIn: true}}, t.State.PlayerStates...)
		t.State.GamePlayerIndexes = []int{1, 2, 3}
		p.UpdateTableState(t)
		if seen[1] != 0 || seen[2] != 0 {
			fail("p0 is shown these numbers of the players' cards: %v", seen)
		}
''',
  "A hand in which a player seated before the viewer does not take part.",
  "The viewer is shown the hole cards of another player.")

plant("c37-close-before", "C37",
  [(B, '	ce.deleteTable(tableIdx)\n	ce.emitEvent("closeCompetitionTable", "")\n	ce.emitCompetitionStateEvent(CompetitionStateEvent_TableUpdated)\n', '	ce.emitCompetitionStateEvent(CompetitionStateEvent_TableUpdated)\n	ce.deleteTable(tableIdx)\n	ce.emitEvent("closeCompetitionTable", "")\n')],
  '''
		f := create(setting(pc.CompetitionMode_MTT))
		for i := 0; i < 12; i++ {
			f.buyIn(fmt.Sprint("p", i), 100)
		}
		f.ce.StartCompetition()
		wait(time.Second)
		n := -1
		f.ce.OnCompetitionStateUpdated(func(e string, c *pc.Competition) {
			if e == string(pc.CompetitionStateEvent_TableUpdated) {
				n = len(c.State.Tables)
			}
		})
		before := len(f.order)
		f.report(f.order[1], pokertable.TableStateStatus_TableClosed)
		if n != before-1 {
			fail("the closing of one of %d tables was announced with %d tables", before, n)
		}
''',
  "A table of a running competition closes.",
  "The closing is announced with a state that still contains the table.")

plant("c38-allin-wager", "C38",
  [(BR, "			wager = br.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).StackSize\n", "			wager = br.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).InitialStackSize\n")],
  '''
		r := actor.NewBotRunner("p1")
		got := []string{}
		r.OnTableGameWagerActionUpdated(func(tid, gid string, gc int, round, action string, chips int64) {
			got = append(got, fmt.Sprintf("%s %d", action, chips))
		})
		p := sit(r)
		t := turn("g1", 1, "preflop", 1, "allin")
		t.State.GameState.Players[1].Wager, t.State.GameState.Players[1].StackSize = 100, 900
		p.UpdateTableState(t)
		if len(got) != 1 || got[0] != "allin 900" {
			fail("an all-in of the remaining 900 chips is announced as %v", got)
		}
''',
  "A bot goes all-in in a round in which it has put in chips before.",
  "The all-in is announced with chips that were put in earlier.")

plant("c39-shared-idle-table", "C39",
  [("actor/table_engine_adapter.go", "	tea.table = &t\n", "	if t.State.GameState == nil {\n		// nothing to protect between hands\n		t = *tableInfo\n	}\n\n	tea.table = &t\n")],
  '''
		a := actor.NewActor()
		ad := actor.NewTableEngineAdapter(nil, nil)
		a.SetAdapter(ad)
		r := actor.NewPlayerRunner("p1")
		a.SetRunner(r)
		t := turn("g1", 1, "preflop", 1)
		t.State.GameState = nil
		t.State.Status = pokertable.TableStateStatus_TableGameStandby
		ad.UpdateTableState(t)
		t.State.PlayerStates[1].Bankroll = 5
		if n := ad.GetTableState().State.PlayerStates[1].Bankroll; n != 1000 {
			fail("the table shown earlier changed: bankroll %d", n)
		}
''',
  "A table is shown between hands and goes on changing.",
  "The actor's table is the table's own, so what was shown changes afterwards.")

plant("c40-json-numbers", "C40",
  [("competition.go", '	encoded, err := json.Marshal(c)\n	if err != nil {\n		return "", err\n	}\n', '	encoded, err := json.Marshal(c)\n	if err != nil {\n		return "", err\n	}\n\n	// keys in alphabetical order\n	fields := map[string]interface{}{}\n	if err := json.Unmarshal(encoded, &fields); err != nil {\n		return "", err\n	}\n	if encoded, err = json.Marshal(fields); err != nil {\n		return "", err\n	}\n')],
  '''
		f := create(setting(pc.CompetitionMode_MTT))
		f.buyIn("a", 1<<53+1)
		s, err := f.ce.GetCompetition().GetJSON()
		if err != nil {
			fail("json: %v", err)
		}
		var c pc.Competition
		if err := json.Unmarshal([]byte(s), &c); err != nil {
			fail("json: %v", err)
		}
		if n := c.State.Players[0].Chips; n != 1<<53+1 {
			fail("%d chips read back as %d", int64(1<<53+1), n)
		}
''',
  "A player holds more chips than a float can count exactly.",
  "The JSON form of the competition shows rounded chips.")
