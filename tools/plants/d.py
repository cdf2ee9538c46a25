B = "competition_engine_internal.go"
E_ = "competition_engine.go"

plant("c41-same-error", "C41",
  [("event.go", "	ce.onCompetitionErrorUpdated(ce.competition, err)\n", "	if err == ce.lastErr {\n		return // the host knows\n	}\n	ce.lastErr = err\n	ce.onCompetitionErrorUpdated(ce.competition, err)\n"),
   (E_, "	isStarted                           bool\n", "	isStarted                           bool\n	lastErr                             error\n")],
  '''
		f := create(setting(pc.CompetitionMode_CT))
		busy := errors.New("table busy")
		f.fail = func(c cmd) error {
			if c.Kind == "UpdateBlind" {
				return busy
			}
			return nil
		}
		for _, id := range []string{"a", "b"} {
			f.buyIn(id, 100)
		}
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		wait(110 * time.Second)
		if n := f.count("UpdateBlind"); n < 2 || len(f.errs) < n {
			fail("%d refused blind updates, announced %v", n, f.errs)
		}
''',
  "A table refuses two commands with the same error value.",
  "The second refusal is not announced.")

plant("c41-error-after-end", "C41",
  [("event.go", "	ce.onCompetitionErrorUpdated(ce.competition, err)\n", "	if ce.isEndStatus() {\n		return\n	}\n	ce.onCompetitionErrorUpdated(ce.competition, err)\n")],
  '''
		f := create(setting(pc.CompetitionMode_CT))
		for _, id := range []string{"a", "b"} {
			f.buyIn(id, 100)
		}
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		f.fail = func(c cmd) error {
			if c.Kind == "ReleaseTable" {
				return errors.New("table busy")
			}
			return nil
		}
		err := f.ce.CloseCompetition(pc.CompetitionStateStatus_ForceEnd)
		wait(time.Second)
		if f.count("ReleaseTable") != 1 || err == nil && len(f.errs) != 1 {
			fail("the refused release was told by %v %v", err, f.errs)
		}
''',
  "A table refuses to be released when the competition ends.",
  "Nobody learns that the table is left over.")

plant("c12-refused-quit", "C12",
  [(E_, "	if err := ce.tableManagerBackend.PlayersLeave(tableID, []string{playerID}); err != nil {\n		fmt.Printf(\"[DEBUG#PlayerQuit]",
        "	ce.competition.State.Players[playerIdx].IsReBuying = false\n	if err := ce.tableManagerBackend.PlayersLeave(tableID, []string{playerID}); err != nil {\n		fmt.Printf(\"[DEBUG#PlayerQuit]"),
   (E_, "		cp.Status = CompetitionPlayerStatus_ReBuyWaiting\n		cp.IsReBuying = false\n		cp.ReBuyEndAt = UnsetValue\n		cp.CurrentSeat", "		cp.Status = CompetitionPlayerStatus_ReBuyWaiting\n		cp.ReBuyEndAt = UnsetValue\n		cp.CurrentSeat")],
  '''
		f := create(setting(pc.CompetitionMode_CT))
		for _, id := range []string{"a", "b", "c"} {
			f.buyIn(id, 100)
		}
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		f.settle("t1", map[string]int64{"a": 0, "b": 200, "c": 100})
		wait(2 * time.Second)
		f.fail = func(c cmd) error { return errors.New("table busy") }
		f.ce.PlayerQuit("t1", "a")
		f.fail = nil
		wait(20 * time.Second)
		if n := f.count("PlayersLeave"); n != 2 {
			fail("the table was asked %d times to let a go (once refused)", n)
		}
''',
  "The table refuses to let go a busted player who quits while its re-buy window is running.",
  "The window is forgotten although the player did not leave, so it keeps its seat for ever.")

plant("c28-refused-leave", "C28",
  [(B, '		ce.emitErrorEvent("handleCashOut -> PlayersLeave", strings.Join(leavePlayerIDs, ","), err)\n', '		ce.emitErrorEvent("handleCashOut -> PlayersLeave", strings.Join(leavePlayerIDs, ","), err)\n		leavePlayerIDs = leavePlayerIDs[:0]\n')],
  '''
		f := create(setting(pc.CompetitionMode_Cash))
		f.buyIn("a", 100)
		f.buyIn("b", 100)
		f.fail = func(c cmd) error {
			if c.Kind == "PlayersLeave" {
				return errors.New("table busy")
			}
			return nil
		}
		f.ce.PlayerCashOut("t1", "a")
		wait(time.Second)
		if f.player("a") == nil && len(f.cash) != 1 {
			fail("a is gone and was paid %d times", len(f.cash))
		}
''',
  "The table refuses to let go a cash player who leaves.",
  "The player is removed from the competition without being paid its chips.")

plant("c25-short-stack", "C25",
  [(B, "		if p.Bankroll <= 0 {\n", "		if p.Bankroll < ce.competition.Meta.MinChipUnit {\n")],
  '''
		s := setting(pc.CompetitionMode_MTT)
		s.Meta.MinChipUnit = 10
		s.Meta.ReBuySetting.MaxTime = 0
		s.Meta.Blind.FinalBuyInLevelIndex = -1
		f := create(s)
		for i := 0; i < 4; i++ {
			f.buyIn(fmt.Sprint("p", i), 100)
		}
		f.ce.StartCompetition()
		wait(time.Second)
		f.settle(f.order[0], map[string]int64{"p0": 195, "p1": 5, "p2": 100, "p3": 100})
		wait(time.Second)
		if t := f.tables[f.order[0]]; len(t.State.PlayerStates) != 4 {
			fail("%d of 4 chip holders sit at the table", len(t.State.PlayerStates))
		}
''',
  "A player is left with fewer chips than one chip unit (an uneven split).",
  "The chip holder is taken off the table without being knocked out.")

plant("c22-short-stack", "C22",
  [(B, "		if p.Bankroll > 0 && p.IsIn {\n", "		if p.Bankroll >= ce.competition.Meta.MinChipUnit && p.IsIn {\n")],
  '''
		s := setting(pc.CompetitionMode_CT)
		s.Meta.MinChipUnit = 10
		s.Meta.MinPlayerCount = 4
		f := create(s)
		for _, id := range []string{"a", "b", "c", "d"} {
			f.buyIn(id, 100)
		}
		f.report("t1", pokertable.TableStateStatus_TableCreated)
		f.settle("t1", map[string]int64{"a": 295, "b": 5, "c": 0, "d": 100})
		f.tables["t1"].State.Status = pokertable.TableStateStatus_TablePausing
		f.report("t1", pokertable.TableStateStatus_TablePausing)
		wait(time.Second)
		c := f.last("SetUpTableGame")
		if c == nil || len(c.Part) != 3 {
			fail("the next hand is %v", c)
		}
''',
  "A paused table goes on while a player holds fewer chips than one chip unit.",
  "The short stack is not dealt in.")
