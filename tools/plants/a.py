B = "competition_engine_internal.go"
E_ = "competition_engine.go"


plant("c11-late-window", "C11",
  [(B, "				if cp.Chips > 0 {\n					// fmt.Printf(\"[handleReBuy#after] player (%s) is already re buy (%d) chips\\n\", reBuyPlayerID, cp.Chips)\n					continue\n				}\n\n				if time.Now().Unix() <= cp.ReBuyEndAt {\n					continue\n				}\n",
       "				if cp.Chips > 0 {\n					// fmt.Printf(\"[handleReBuy#after] player (%s) is already re buy (%d) chips\\n\", reBuyPlayerID, cp.Chips)\n					continue\n				}\n")],
  '''
		s := setting(pc.CompetitionMode_CT)
		s.Meta.ReBuySetting = pc.ReBuySetting{MaxTime: 3, WaitingTime: 10}
		f := create(s)
		for _, id := range []string{"a", "b", "c"} {
			f.buyIn(id, 100)
		}
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		f.settle("t1", map[string]int64{"a": 0, "b": 200, "c": 100}) // first window
		wait(5 * time.Second)
		f.buyIn("a", 100)
		f.settle("t1", map[string]int64{"a": 0, "b": 300, "c": 100}) // second window
		wait(9 * time.Second) // the first window is over, the second is not
		if f.count("PlayersLeave") != 0 {
			fail("player a lost the seat inside the running re-buy window")
		}
''',
  "A player busts, re-buys inside the window, and busts again before the first window's timer fires.",
  "The timer of the first re-buy window takes the player off the table although a second window is still running.")

plant("c13-knockout-waiters", "C14",
  [(B, "					rank := ce.competition.PlayingPlayerCount() + (len(knockoutPlayerRankings) - idx)\n					ce.emitCompetitionStateFinalPlayerRankEvent(knockoutPlayerID, rank)\n				}\n",
       "					rank := ce.competition.PlayingPlayerCount() + idx + 1\n					ce.emitCompetitionStateFinalPlayerRankEvent(knockoutPlayerID, rank)\n				}\n")],
  '''
		s := setting(pc.CompetitionMode_CT)
		s.Meta.Blind.FinalBuyInLevelIndex = 0
		f := create(s)
		for _, id := range []string{"a", "b", "c", "d"} {
			f.buyIn(id, 100)
		}
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		f.settle("t1", map[string]int64{"a": 0, "b": 200, "c": 100, "d": 100})
		wait(time.Second)
		f.settle("t1", map[string]int64{"b": 300, "c": 0, "d": 100})
		wait(120 * time.Second)
		got := fmt.Sprint(sorted(f.ranks))
		if got != "[a:4 c:3]" {
			fail("final ranks announced when buy-in stopped: %s", got)
		}
''',
  "Two or more players are waiting to re-buy when buy-in stops.",
  "The final ranks announced for the players knocked out together when buy-in stops are reversed.")

plant("c20-late-table-blinds", "C20",
  [(B, "		for _, table := range ce.competition.State.Tables {\n			ce.updateTableBlind(table.ID)\n			ce.handleBreaking(table.ID)\n		}\n",
       "		for _, table := range ce.competition.State.Tables {\n			if table.State.Status != pokertable.TableStateStatus_TablePausing {\n				ce.updateTableBlind(table.ID)\n			}\n			ce.handleBreaking(table.ID)\n		}\n")],
  '''
		s := setting(pc.CompetitionMode_CT)
		f := create(s)
		f.buyIn("a", 100)
		f.buyIn("b", 100)
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		f.settle("t1", map[string]int64{"a": 50, "b": 150})
		f.report("t1", pokertable.TableStateStatus_TablePausing)
		n := f.count("UpdateBlind")
		wait(101 * time.Second)
		if f.count("UpdateBlind") != n+1 {
			fail("the paused table was not told the new level")
		}
''',
  "The blind level changes while a table is paused.",
  "A paused table is not sent the new level's blinds.")
