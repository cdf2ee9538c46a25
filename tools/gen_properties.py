#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that titles, anchors and ids stay in one place)."""
import json, os, sys
P = []
E = "competition_engine.go"; I = "competition_engine_internal.go"
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    
    if len(title) > 80: sys.exit(f"{id}: title {len(title)}")
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

HIST = "The two competition-level tests replay one CT script with fixed players and never vary the history."

prop("C01", "Competition status only moves forward and an ended competition stays ended",
 "A competition's status only moves from registering to delayed or stopped buy-in, from delayed to stopped buy-in, and from any of these to exactly one end status (the one given by the first close). The close settles the competition exactly once (one Settled announcement, every table still held is released) and after it start, buy-in and add-on requests are rejected, while further close requests, table updates and timers that were already pending change neither status, players, tables nor final rankings and command no table.",
 ["histories", "schedules"], "every sequence of requests, table updates and timer firings in CT, MTT and cash mode, including closes requested from inside callbacks",
 "Each test closes a competition at most once, at the end of its script; nothing is ever sent to an ended competition.",
 [E, I], [("CloseCompetition / settleCompetition", E), ("isEndStatus guards", I), ("UpdateTable end guard", E)],
 ["Competition.State.Status", "OnCompetitionStateUpdated(Settled)", "TableManagerBackend calls"],
 [("Competition.State.Status", "life-cycle status", "competition.go"), ("Competition.State.Rankings", "final rankings", "competition.go")])

prop("C02", "CT and cash competitions start themselves once, when enough players are ready",
 "A registering CT or cash competition starts exactly when the number of seated players that have joined the table with chips reaches the minimum player count (for a CT with a configured start time: not before that time, and at that time if enough players are already ready); it then records the start time, activates the blinds, sends the current blinds to the table and opens the first hand with exactly one start command. It never starts below the minimum and never starts twice.",
 ["histories", "configurations", "inputs"], "every order of buy-ins, refunds, table joins and table updates, with and without a configured start time",
 "The tests start one CT without a configured start time and with all players joining in one burst.",
 [E, I], [("handleCompetitionTableCreated, canStartCT, canStartCash", I), ("StartCompetition", E), ("start-time timer", E)],
 ["Competition.State.StartAt/Status/BlindState", "TableManagerBackend.StartTableGame/UpdateBlind"])

prop("C03", "An MTT starts once, and unfilled registrations auto-end at the disable time",
 "An MTT starts exactly once, by the first manual start request or by the configured start time while it is still registering, and its blinds activate and its first tables are formed only when it is both started and has at least the minimum number of registered players; any later start request is rejected without effect. A competition of any mode that is still registering at its disable time is auto-ended then if and only if it has fewer registered players than the minimum.",
 ["histories", "schedules", "configurations"], "every interleaving of registrations, refunds, manual starts, the start timer and the disable timer",
 "No test runs an MTT, waits for a start time, or reaches the disable time.",
 [E, "regulator.go"], [("StartCompetition", E), ("start and disable timers in CreateCompetition", E), ("shouldActivateRegulator/activateRegulator", "regulator.go")],
 ["Competition.State.Status/StartAt/BlindState", "TableManagerBackend.CreateTable"])

prop("C04", "Creation validates its settings and builds exactly the configured competition",
 "Creating a competition is rejected when its start time or its disable time lies in the past or when a configured table has more players than seats, and creates nothing findable in that case or when a table cannot be created. Otherwise the published competition is registering, carries the given settings, has no players, rankings or statistics, blinds not yet active, and (CT and cash) exactly one table per configured table, requested with the competition's id, rule, mode, duration, seat limit, minimum players, chip unit, action time and given players.",
 ["configurations", "inputs", "fault_sequences"], "every combination of settings (mode, rule, times, levels, tables), including invalid ones and a failing table backend",
 "The tests create two valid CT competitions; no invalid or failing creation is tried.",
 [E, I, "competition_settings.go", "manager.go"], [("CreateCompetition", E), ("NewPokerTableSetting", "competition_settings.go"), ("addCompetitionTable", I), ("manager.CreateCompetition", "manager.go")],
 ["CreateCompetition result", "TableManagerBackend.CreateTable", "Manager.GetCompetitionEngine"])

prop("C05", "An accepted buy-in or re-buy credits its chips once and seats the player once",
 "An accepted buy-in creates exactly one player record holding exactly the redeemed chips and units, and an accepted re-buy adds exactly the redeemed chips, one re-buy and its units to the existing record, ends its re-buy window and makes it active again; no other player changes. In CT and cash the same chips are forwarded to the competition's table exactly once; in MTT the player waits for placement and its chips are brought to a table exactly once.",
 ["inputs", "histories"], "every player set, chip amount, unit count and moment of the competition, in all three modes",
 "The tests buy in a handful of players with one constant amount, never re-buy, and do not look at the totals.",
 [E], [("PlayerBuyIn", E), ("newDefaultCompetitionPlayerData", I)],
 ["CompetitionPlayer.Chips/TotalRedeemChips/ReBuyTimes/TotalBuyInUnits/Status", "Statistic.TotalBuyInCount", "TableManagerBackend.PlayerReserve"])

prop("C06", "Inadmissible buy-ins and re-buys are rejected without any effect",
 "A buy-in without chips, outside registering and delayed buy-in, of a CT whose playing and re-buy-waiting players already fill the table, and (CT and MTT) a re-buy of a player who still has chips, is not waiting to re-buy, was knocked out, or has used all re-buys is rejected with the corresponding error, and leaves the competition, the tables and every counter untouched; every other buy-in or re-buy is accepted.",
 ["inputs", "histories", "configurations"], "every request at every point of every competition history",
 "No test sends a request that must be rejected.",
 [E, "competition.go"], [("validation part of PlayerBuyIn", E), ("BlindState.IsStopBuyIn", "competition.go")],
 ["PlayerBuyIn error", "Competition snapshot before/after", "TableManagerBackend calls"])

prop("C07", "Add-ons are granted only when allowed, and credited exactly once or not at all",
 "An add-on is granted only to a registered player, with a positive chip amount, at a blind level that allows add-ons, inside a break if add-ons are break-only, below the add-on limit, and while the competition has not ended; a granted add-on adds exactly its chips to the player and forwards them to the player's table once and counts one add-on and its units. A refused add-on, including one refused by the table, changes nothing.",
 ["inputs", "histories", "fault_sequences"], "every add-on request at every blind level, with tables that accept or reject it",
 "No test performs an add-on.",
 [E], [("PlayerAddon", E)], ["CompetitionPlayer.Chips/AddonTimes/TotalRedeemChips", "Statistic.TotalAddonCount", "TableManagerBackend.PlayerRedeemChips"])

prop("C08", "A refund before the blinds start removes the player and everything it brought",
 "As long as the blinds are not running a registered player can be refunded: exactly that player disappears from the competition, its buy-in units leave the total, it is taken off its CT table or out of the MTT placement queue, and it can register again as new. Once the blinds are running, or for an unknown player, the refund is rejected without effect.",
 ["histories", "inputs"], "every order of registrations, refunds, re-registrations and starts in CT, MTT and cash",
 "No test refunds a player.",
 [E], [("PlayerRefund", E), ("deletePlayer", I)], ["Competition.State.Players", "Statistic", "TableManagerBackend.PlayersLeave/CreateTable"])

prop("C09", "A settled hand sets each seated player's chips once; repeated updates do nothing",
 "When a table reports a settled hand, every competition player seated there gets exactly the bankroll and the table rank (1..n by bankroll among the players of the hand, earlier joiner first on ties, 0 for those who sat out) that the table reports, and no other player's chips change. Reporting the same hand of the same table again, any number of times and in any order with other updates, changes nothing.",
 ["histories", "inputs"], "every hand result, number of tables, and pattern of repeated or interleaved table updates",
 "The tests never repeat a settled update and do not compare chips with the table.",
 [I, "rank.go"], [("settleCompetitionTable de-duplication", I), ("updatePlayerCompetitionTableRecords", I), ("GetParticipatedPlayerTableRankingData", "rank.go")],
 ["CompetitionPlayer.Chips/Rank/TableRank", "GetCompetition()"],
 [("gameSettledRecords", "hands already applied", E)])

prop("C10", "Per-player cumulative statistics count every participated hand exactly once",
 "For each settled hand a player participated in, the player's cumulative counters (hands, folds by round, actions, raises, calls, checks, VPIP, PFR, ATS, 3-bet, fold-to-3-bet, check-raise, c-bet, fold-to-c-bet and showdown chances and times, profits, walks) grow by exactly what the hand reports, and the best winning pot and combination are the running maxima over the hands won. Players who did not take part are unaffected.",
 ["histories", "inputs"], "every combination of per-hand statistics over every sequence of hands",
 "No test looks at the statistics.",
 [I], [("updatePlayerCompetitionTableRecords", I)], ["CompetitionPlayer.Total*", "CompetitionPlayer.BestWinning*"])

prop("C11", "A busted player gets one re-buy window, and loses the seat only when it lapses",
 "While buy-in is open, a player who busts in a settled hand with re-buys left becomes re-buy-waiting; in CT and cash the window closes at the bust time plus the waiting time, and if the player has not re-bought shortly (2 s) after that it leaves the table exactly once (CT: stays registered and may still re-buy until buy-in stops; cash: is cashed out), while a player who re-bought in time, was knocked out, quit or already left is never removed. Without re-buys left a CT or MTT player is knocked out instead.",
 ["schedules", "histories"], "every relative timing of busts, re-buys, quits, stop of buy-in and overlapping windows",
 "No test lets a re-buy window run out or re-buys.",
 [I], [("handleReBuy", I), ("GetSortedTableSettlementKnockoutPlayerRankings", "rank.go")],
 ["CompetitionPlayer.Status/IsReBuying/ReBuyEndAt/ReBuyWaitingAt", "TableManagerBackend.PlayersLeave"])

prop("C12", "Quitting a CT gives up the seat but keeps the player until buy-in stops",
 "A player of a CT whose buy-in is still open can quit at one of its tables: the player leaves the table exactly once and becomes re-buy-waiting without a running re-buy window or seat. A quit in another mode, of an unknown player or table, or after buy-in stopped is rejected, and a quit the table refuses has no effect on the player.",
 ["histories", "inputs", "fault_sequences"], "every quit request at every point, with tables that accept or refuse",
 "No test quits.",
 [E], [("PlayerQuit", E)], ["PlayerQuit error", "CompetitionPlayer.Status/CurrentSeat/IsReBuying", "TableManagerBackend.PlayersLeave"])

prop("C13", "Buy-in stops exactly once, when the final buy-in level is passed",
 "The competition leaves delayed buy-in for stopped buy-in exactly when the current blind level passes the configured final buy-in level (immediately at the start when no late buy-in is configured or the initial level is already past it, never when it is unlimited). At that moment every player without chips who is still waiting to re-buy is knocked out exactly once (and taken off a CT table it still occupies), nobody else is, and from then on no buy-in or re-buy succeeds.",
 ["schedules", "configurations", "histories"], "every blind structure, initial level and final buy-in level against every pending re-buy situation",
 "The blind tests only advance levels; no competition test reaches the end of buy-in with players waiting to re-buy.",
 [I, "competition.go"], [("blind state handler in initBlind", I), ("activateBlind", I), ("BlindState.IsStopBuyIn", "competition.go"), ("GetSortedStopBuyInKnockoutPlayerRankings", "rank.go")],
 ["Competition.State.Status", "CompetitionPlayer.Status", "Rankings", "TableManagerBackend.PlayersLeave"])

prop("C14", "Each knock-out happens once and is announced with the right final rank",
 "A CT or MTT player is knocked out at most once, only without chips and without a remaining chance to re-buy, and then never plays again, and is appended exactly once to the rankings behind everyone knocked out earlier. After buy-in has stopped, the final rank announced for it is the number of players still holding chips plus its place among those knocked out with it, earlier joiners ranking better.",
 ["histories", "inputs"], "every knock-out order, including several players busting in one hand and ties in join time",
 "No test checks knock-outs or announced ranks.",
 [I, "rank.go"], [("handleTableKnockoutPlayers", I), ("GetSorted*KnockoutPlayerRankings", "rank.go")],
 ["OnCompetitionFinalPlayerRankUpdated", "Competition.State.Rankings", "CompetitionPlayer.Status/KnockoutAt"])

prop("C15", "Final rankings list every contender once, in the order they finished",
 "When a started competition ends, its final rankings contain each player who still held chips or had been knocked out exactly once and nobody else: first the chip holders by chips descending (earlier joiner first on ties) with their final chips, then the knocked-out players, last knocked out first, with zero chips. Each ranked player's competition rank is its position, and every surviving chip holder is announced exactly once with that position.",
 ["histories", "inputs"], "every competition history and every way to end it",
 "One CT test runs to its end but does not look at the rankings.",
 [I, "rank.go"], [("updatePlayerFinalRankings", I), ("GetParticipatedPlayerCompetitionRankingData", "rank.go")],
 ["Competition.State.Rankings", "CompetitionPlayer.CompetitionRank", "OnCompetitionFinalPlayerRankUpdated"])

prop("C16", "Live competition ranks order players by chips, re-buy waiters, then knock-outs",
 "After every buy-in, add-on and settled hand and when buy-in stops, the published competition ranks number the players 1..n without gaps or repeats: chip holders by chips descending (earlier joiner first on ties), then re-buy waiters (the later to bust ranks better), then knocked-out players, the last knocked out first.",
 ["histories", "inputs"], "every chip distribution and mix of playing, waiting and knocked-out players",
 "No test reads the ranks.",
 [I], [("refreshPlayerCompetitionRanks", I)], ["CompetitionPlayer.CompetitionRank"])

prop("C17", "Chips are conserved across the whole competition",
 "At every quiet moment the chips of all players of a competition add up to the chips redeemed by accepted buy-ins, re-buys and add-ons minus the chips taken out by refunds and cash-outs, whatever was re-bought, moved between tables, settled, repeated or rejected in between, as long as tables accept the players they are given. The chips every table was given for a player are the chips the competition credits that player with.",
 ["histories", "inputs", "fault_sequences"], "every history of zero-sum hands, registrations, re-buys, add-ons, moves, cash-outs and refused table commands",
 "It is a global sum over whole histories; the tests never add anything up.",
 [E, I, "regulator.go"], [("PlayerBuyIn/PlayerAddon/PlayerRefund", E), ("updatePlayerCompetitionTableRecords, handleCashOut, handleMTTTableSettlementNextStep", I), ("regulatorCreateAndDistributePlayers/regulatorDistributePlayers", "regulator.go")],
 ["CompetitionPlayer.Chips", "OnCompetitionPlayerCashOut", "TableManagerBackend.CreateTable/UpdateTablePlayers/PlayerReserve"])

prop("C18", "The competition mirrors its own tables, by value, until they close",
 "After a table update the competition publishes exactly the reported state of that table, as a copy the reporter cannot change afterwards, and leaves every other table and everything a non-settling, non-pausing update does not concern untouched; updates of tables it does not own are ignored. A table reported closed disappears, and when the last one does the competition ends.",
 ["histories", "inputs"], "every sequence of updates, including foreign, repeated and later modified table objects",
 "The tests forward table updates but never compare the published tables.",
 [E, I], [("UpdateTable", E), ("closeCompetitionTable/deleteTable", I)], ["Competition.State.Tables", "Competition.State.Status"])

prop("C19", "Every table resumes exactly once after each break, with its eligible players",
 "For every break level and every table present during it, play is resumed one second after the break's end (of directly following breaks, the last one's) exactly once: the next hand is set up with the players that are seated, joined and have chips (or, before the first hand, the table is started), provided the table still exists with enough players with chips and the competition has not ended. No hand is set up by the competition while a break is running.",
 ["schedules", "histories", "configurations"], "every alignment of breaks, settled hands, pauses, table creations and closings",
 "One CT test runs through breaks but only checks that it terminates.",
 [I], [("handleBreaking", I), ("updatePauseCompetition", I)], ["TableManagerBackend.SetUpTableGame/StartTableGame"],
 [("breakingPauseResumeStates", "breaks already handled per table", E)])

prop("C20", "Every table always receives the current level's blinds",
 "Whenever the blind level changes, every table of the competition is sent exactly the new level's number, ante, dealer blind, small and big blind once, a CT or cash table gets them before its first hand, and a table created later is created with the level then current; the published level index and level end times are those of the running blind structure, and nothing is sent after the competition ended.",
 ["schedules", "configurations"], "every blind structure (breaks, short deck dealer blinds, antes), any number of tables and any moment of table creation",
 "The blind tests have no tables; the CT tests have one and do not look at its blinds.",
 [I, "competition.go", "regulator.go"], [("blind state handler in initBlind, updateTableBlind", I), ("CurrentBlindData", "competition.go"), ("regulatorCreateAndDistributePlayers", "regulator.go")],
 ["TableManagerBackend.UpdateBlind/CreateTable", "Competition.State.BlindState"])

prop("C21", "The blind clock visits each level in order, exactly at its end time",
 "A started blind structure begins at its initial level, and ends each timed level exactly at the start time plus the summed durations, moving to the next level one by one and announcing each change once; it never skips, repeats or goes past the last level, stays forever in an unlimited one, and after being ended announces nothing more. It starts at most once and reports an unknown initial level as an error instead of failing.",
 ["configurations", "schedules"], "every level list, initial level and moment of ending it",
 "Seven tests sample a few fixed structures with second-long levels.",
 ["blind/blind.go", "blind/state.go"], [("Start/updateLevel/End", "blind/blind.go")], ["OnBlindStateUpdated", "GetState()", "Start() error"])

prop("C22", "Hands are set up only with eligible players, and paused tables reopen when ready",
 "Whenever the competition sets up a hand, the participants are exactly the table's players that are seated, have joined and hold chips, with their positions in the reported player list. A table reported as pausing is given its next hand (game count plus one) exactly once if enough ready players for its minimum are there, no break is running and, in CT, buy-in is still open, and otherwise not.",
 ["histories", "configurations", "inputs"], "every pausing update with every mix of joined, absent and broke players in every phase and mode",
 "The CT tests pause only incidentally.",
 [E, I], [("updatePauseCompetition, generateAliveParticipants", I), ("ReadyFirstTableGame", E)], ["TableManagerBackend.SetUpTableGame"])

prop("C23", "A running competition ends by itself exactly when its end condition is met",
 "A running CT ends about 3 s after a settled hand when its time is over or when buy-in has stopped and fewer players than the table minimum have chips, or when its table reports no further hands after buy-in stopped; at its end time an idle table is closed. A cash game ends 3 s after a hand settled past its time, an MTT when buy-in has stopped and a single chip holder remains at its only table (or its advancement completes), CT and MTT also when buy-in stops with no table or fewer than two players with chips at the only table; otherwise a running competition never ends by itself.",
 ["histories", "schedules", "configurations"], "every history and timing of hands, blind levels and end times",
 "One CT run to its end is sampled; its negative side (not ending early) and the other modes are not.",
 [I, E], [("shouldCloseCTCompetition/shouldCloseCashCompetition/handleMTTTableSettlement", I), ("AutoGameOpenEnd, CT end timer", E)],
 ["Competition.State.Status", "TableManagerBackend.CloseTable/ReleaseTable"])

prop("C24", "In an MTT every chip holder is at exactly one table or waiting, never lost",
 "After every operation each MTT player with chips is either seated at exactly one table, which the player record names, or is waiting for placement and at no table; nobody is seated twice, no table holds more players than its seats, every player brings exactly its chips to a table, and a player entering the competition or released from a table is placed again once a table has room and needs players (nobody is dropped from the placement queue).",
 ["histories", "schedules", "inputs"], "every registration order, table size, bust-out pattern and number of tables",
 "No test runs an MTT.",
 ["regulator.go", I, E], [("regulator set-up and PlayerBuyIn MTT branch", E), ("regulatorAddPlayers/activateRegulator/regulatorCreateAndDistributePlayers/regulatorDistributePlayers", "regulator.go"), ("handleMTTTableSettlementNextStep", I)],
 ["TableManagerBackend.CreateTable/UpdateTablePlayers", "CompetitionPlayer.CurrentTableID/CurrentSeat/Status"],
 [("waitingPlayers", "players registered before tables exist", E)])

prop("C25", "MTT table balancing removes the busted, moves the released and closes the empty",
 "After every settled MTT hand (unless the table is paused for advancement) exactly the busted players and the players released for balancing leave the table, in one update together with the players assigned to it; released players become waiting, assigned players play at that table and seat, and a table left without players is closed. After buy-in stopped, a table whose hand settles while the remaining players fit on one table and several tables exist is broken up.",
 ["histories", "inputs"], "every bust-out pattern over any number of tables and settlements",
 "No test runs an MTT.",
 [I, "regulator.go"], [("handleMTTTableSettlement/handleMTTTableSettlementNextStep", I)],
 ["TableManagerBackend.UpdateTablePlayers/CloseTable", "CompetitionPlayer.Status/CurrentTableID/CurrentSeat"])

prop("C26", "MTT advancement pauses each table once past the target and then ends the event",
 "In an MTT with advancement, from the moment buy-in has stopped, a table whose hand settles when the advancement target is met (blind level reached, or fewer chip holders than the advancing player count obtained once from the total number of buy-ins) is paused instead of being balanced and counted once, and when all its tables are paused the advancement ends and the competition ends. Before the target is met, or without advancement, no table is paused.",
 ["histories", "configurations"], "every advancement rule and target, number of tables and order of settlements",
 "No test configures advancement.",
 [I, "regulator.go"], [("initAdvancement/handleMTTTableSettlement", I), ("activateRegulator", "regulator.go")],
 ["TableManagerBackend.PauseTable", "Competition.State.AdvanceState", "OnAdvancePlayerCountUpdated"])

prop("C27", "Published head counts and totals agree with the players",
 "After every buy-in, re-buy, refund, quit, seat reservation, lapse of a re-buy window, cash-out, settled hand and stop of buy-in, the published numbers of playing, waiting, re-buy-waiting and knocked-out players equal the players in these states. The buy-in total equals the accepted units not refunded and the add-on total the granted units (CT and MTT).",
 ["histories"], "every operation history in all modes",
 "No test reads the statistics.",
 [E, I], [("refreshPlayerStatusStatistics", I), ("PlayerBuyIn/PlayerAddon/PlayerRefund/PlayerQuit/UpdateReserveTablePlayerState", E)], ["Competition.State.Statistic"])

prop("C28", "Cash players are paid out exactly once, with exactly their chips",
 "A cash player who asks to leave a running or open cash game is paid out exactly once with the chips it then holds: immediately if the game has not started or its table is pausing, otherwise when the current hand settles, with that hand's result (if it busts with re-buys left, when its re-buy window lapses); it leaves the table in the same step and is no longer a player, can buy in again as new, and no other player is paid out or removed. Cash-out requests outside cash mode or for unknown players are rejected without effect.",
 ["histories", "schedules"], "every timing of leave requests, repeated requests, hands, lapsing re-buy windows and buy-ins",
 "No test plays a cash game.",
 [E, I], [("PlayerCashOut", E), ("handleCashOut/handleCashTableSettlement", I)], ["OnCompetitionPlayerCashOut", "Competition.State.Players", "TableManagerBackend.PlayersLeave"])

prop("C29", "The manager routes each request to the one competition it names",
 "A manager request or table update naming a competition affects that competition only and returns its result; naming an unknown, released or closed competition returns the not-found error and affects nothing. Closing one competition leaves the others running, resetting ends all of them, and competitions sharing one table backend do not influence each other.",
 ["histories", "inputs"], "every interleaving of requests to several competitions with equal player ids",
 "Every test manages a single competition.",
 ["manager.go", "native_table_manager_backend.go", E], [("manager methods", "manager.go"), ("WithTableManagerBackend", E)], ["Manager API results", "Competition snapshots of all competitions"])

prop("C30", "The native table backend forwards every command and every table event faithfully",
 "With the native table backend each table command reaches the real table with its arguments and its result is returned, every state change, seat reservation and first-hand readiness of the table reaches the competition as an independent copy, a table state passed to the backend itself reaches it once, and a CT, cash or MTT competition of bots therefore plays hand after hand until it ends, with chips conserved and every table reservation reflected in the player's seat.",
 ["schedules", "configurations", "programs"], "whole competitions played by bots over the real table engine, in several modes, sizes and seeds",
 "The tests wire the table engine's callbacks by hand in the test code and run one CT shape.",
 ["native_table_manager_backend.go", E], [("CreateTable callbacks", "native_table_manager_backend.go"), ("ReadyFirstTableGame", E)], ["pokertable.Manager", "Competition snapshots"])

prop("C31", "Concurrent registrations are applied as if one after the other",
 "When players buy in, re-buy, add on and refund concurrently, the outcome equals that of the accepted requests applied one after the other in some order: no duplicate player records, no lost players, chips or counters, no more players than a CT table has seats, each accepted request forwarded to the table once, and no data race.",
 ["schedules"], "every interleaving of concurrent registration requests",
 "The tests issue all requests from one goroutine and run without the race detector.",
 [E], [("ce.mu in PlayerBuyIn/PlayerAddon/PlayerRefund", E)], ["Competition.State.Players/Statistic", "TableManagerBackend calls", "Go race detector"])

prop("C32", "No table behaviour or callback can deadlock or crash a competition",
 "Requests, table updates and timers always return, even when the table backend reports table updates, reservations, readiness or settled hands synchronously from inside a command (settled hands except from inside the balancer's own table creations and seatings), when a listener calls back into the competition's queries or closes it from inside an announcement, or when a table command fails. Every failed command is reported as an error event or returned, a competition closed from inside an announcement stays closed and asks for no further table, seat, chips or hand; and later operations on the competition still work.",
 ["fault_sequences", "schedules", "histories"], "every table command failing or re-entering at every point of a history",
 "The tests use one well-behaved backend in one order.",
 [E, I, "regulator.go"], [("ce.mu critical sections", E), ("settleCompetitionTable", I)], ["return of every call", "OnCompetitionErrorUpdated"])

prop("C33", "Bots only ever make moves the game allows",
 "A bot that is seated and has moves open answers each new game state, within the action time, with exactly one move that is in its allowed set and whose amount the game accepts (ante and blind payments equal to the amounts due, bets and raises between the minimum and its stack), never moves when it has none open, is not in the hand, or has already answered that state or a later one, and asks to join when it is seated but not joined.",
 ["inputs", "histories"], "every game state reached by random play in all rules, table sizes and stack sizes, with repeated and outdated updates",
 "The tests play one CT with bots and would not notice a rejected or extra move.",
 ["actor/bot_runner.go", "actor/actions.go", "actor/table_engine_adapter.go"], [("UpdateTableState/requestMove/requestAI", "actor/bot_runner.go")], ["Adapter calls", "OnTableGameWagerActionUpdated"])

prop("C34", "An unresponsive player is auto-played by the rules: ready, check, else fold",
 "For a seated player whose turn it is, passes, antes and blinds are made immediately with the amounts due; otherwise the player has its full action time, after which exactly one automatic move is made: ready, else check, else fold. After the configured number of further consecutive time-outs it is switched to auto mode, where it moves immediately, until it resumes; switches are announced, and the mode is reported, for the table the player follows; a player's own move cancels the pending automatic move and restarts the count, and the table going on or stopping cancels it too.",
 ["schedules", "histories"], "every timing of own moves, time-outs, new states and mode switches",
 "No test uses the player runner's timers.",
 ["actor/player_runner.go"], [("requestMove/automate/Idle/Suspend/Resume", "actor/player_runner.go")], ["Adapter calls", "OnAutoModeUpdated"])

prop("C35", "A player's view of a running hand never shows others' hidden cards",
 "Every table state a player runner hands to its player while a hand exists hides the deck and burned cards and other players' hole cards as long as that player may not see them, without changing the table state shared with others.",
 ["inputs", "histories"], "every table and game state, for participants, spectators and players sitting out",
 "No test looks at what a player is shown.",
 ["actor/player_runner.go"], [("UpdateTableState filtering", "actor/player_runner.go")], ["OnTableStateUpdated"])

prop("C36", "Every accepted change is published, with ever increasing serial numbers",
 "Each published competition update carries a serial number greater than every earlier one, and every accepted buy-in, re-buy, add-on, refund, reservation, start, blind level change, settled hand, table creation, table closing and close is followed by at least one competition update and each changed buy-in, seat or knock-out by an update of that player, showing the state after the change.",
 ["histories"], "every operation history in all modes",
 "No test observes the update stream as a whole.",
 ["event.go", E, I], [("emitEvent/emitPlayerEvent/emitCompetitionStateEvent", "event.go")], ["OnCompetitionUpdated", "OnCompetitionPlayerUpdated", "OnCompetitionStateUpdated"])

prop("C37", "State announcements name what happened and carry the state after it",
 "Every accepted buy-in, re-buy, add-on and refund is announced as a statistics update, every opened or closed table as a table update, every blind level change and the stop of buy-ins as a blind update, every group of players put out by the stop of buy-ins or a quit as a knock-out, every settled hand as a settled table game, every refresh of the standings as a rank update, all carrying the competition's state after that change; the activation of the blinds is announced exactly once, and every paid-out group of cash players exactly once, after they are gone.",
 ["histories"], "every operation history in all modes",
 "No test looks at the kinds of state announcements or at the state they carry.",
 ["event.go", E, I], [("emitCompetitionStateEvent", "event.go"), ("initBlind/activateBlind", I), ("addCompetitionTable/closeCompetitionTable", I), ("PlayerBuyIn/PlayerAddon/PlayerRefund/PlayerQuit", E)], ["OnCompetitionStateUpdated"])

prop("C38", "Runners announce every accepted move of theirs once, as it was made",
 "Each check, bet, call, fold, all-in and raise a bot or a player's runner gets accepted by the table - made by hand, by a time-out or in auto mode - is announced exactly once, with the table, hand, hand count and round it was made in, and with the chips it put in (call, all-in) or named (bet, raise); refused moves, readiness, passes and payments are not announced, outdated table states never change what is announced, and a player's runner whose events are off announces no table states or auto-mode changes.",
 ["histories", "schedules", "inputs"], "every hand, stack size and order of table states, including states that arrive late or while a move is still being handled",
 "The actor tests ignore the announced moves.",
 ["actor/bot_runner.go", "actor/player_runner.go"], [("wagerActionUpdater", "actor/bot_runner.go"), ("wagerActionUpdater", "actor/player_runner.go"), ("requestAI", "actor/bot_runner.go"), ("automate", "actor/player_runner.go")], ["OnTableGameWagerActionUpdated", "OnTableStateUpdated", "OnAutoModeUpdated"])

prop("C39", "Moves and tables pass between an actor and its table engine unchanged",
 "Every move made through an actor's Actions or the table engine adapter reaches its own table engine exactly once, as the same move of the same player with the same chips, and returns what the engine returned; every table state given to the adapter is shown to the actor's runner exactly once, equal but as a copy that later changes of the original do not reach, never two at the same time, and the adapter's table, game and player index are those of the state shown last.",
 ["inputs", "histories", "schedules"], "every move, table state and number of actors",
 "The tests play hands through the adapter but look at neither arguments, errors nor sharing.",
 ["actor/table_engine_adapter.go", "actor/actions.go", "actor/actor.go"], [("tableEngineAdapter", "actor/table_engine_adapter.go"), ("actions", "actor/actions.go"), ("UpdateTableState", "actor/actor.go")], ["Player* commands", "Runner.UpdateTableState"])

prop("C40", "Queries of a competition and its JSON answer exactly from its contents",
 "Every query of a competition (players with chips, players by status, first matching player or table, index map, current blind level and amounts, break, end of buy-ins) answers exactly what its contents say without changing them; its JSON form uses the documented names and reads back as the same competition; table settings are made from its own settings; and the player's view differs only in hiding the tables.",
 ["inputs"], "every competition state",
 "No test calls these functions on their own.",
 ["competition.go", "competition_settings.go"], [("Competition getters and setters", "competition.go"), ("IsStopBuyIn", "competition.go"), ("NewPokerTableSetting", "competition_settings.go")], ["Competition methods"])

prop("C41", "Whoever asked is told when a table refuses a command",
 "Whenever a table refuses a command - asked for by a request, by a table report, by a timer or by the balancer - its own error reaches the host: as the answer of the request or report that caused the command, or as an error announced with the competition it concerns; and no error is ever announced that no table reported, except that a competition started by hand could not be started again, that the balancer refused a table's report, or that a break has no end to resume at.",
 ["fault_sequences", "histories"], "every table command refused at every point of a history",
 "No test lets a table refuse anything or listens for errors.",
 [E, I, "regulator.go", "event.go", "manager.go"], [("emitErrorEvent", "event.go"), ("PlayerBuyIn/PlayerAddon/PlayerQuit/PlayerCashOut/CloseCompetition", E), ("regulatorCreateAndDistributePlayers", "regulator.go"), ("settleCompetitionTable/handleBreaking/updateTableBlind", I)], ["OnCompetitionErrorUpdated", "errors returned"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
