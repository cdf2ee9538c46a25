package vh

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"github.com/weedbox/pokercompetition/actor"
	"github.com/weedbox/pokertable"
)

func init() {
	workloads["C33"] = caseWorkload(botCase)
	workloads["C34"] = caseWorkload(playerCase)
	workloads["C35"] = caseWorkload(viewCase)
	workloads["C38"] = caseWorkload(func(c *Case) string {
		c.base = "C33"
		if c.r.Intn(2) == 0 {
			return botCase(c)
		}
		c.base = "C34"
		return playerCase(c)
	})
}

func has(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

// ---- C33

type botSeat struct {
	id    string
	ad    *seatAdapter
	ac    actor.Actor
	human bool
	joins []string
}

type botLike interface {
	actor.Runner
	Humanized(bool)
	OnTableAutoJoinActionRequested(actor.TableAutoJoinActionRequestFunc) error
	OnTableGameWagerActionUpdated(actor.TableGameWagerActionUpdatedFunc) error
}

func newBotSeat(id string, human bool) *botSeat {
	s := &botSeat{id: id, human: human, ad: &seatAdapter{who: id}}
	s.ac = actor.NewActor()
	var rn botLike = actor.NewBotRunner(id)
	rn.Humanized(human)
	rn.OnTableAutoJoinActionRequested(func(cid, tid, pid string) { s.joins = append(s.joins, cid+"/"+tid+"/"+pid) })
	rn.OnTableGameWagerActionUpdated(s.ad.announced)
	s.ac.SetRunner(rn)
	s.ac.SetAdapter(s.ad)
	return s
}

func botCase(c *Case) string {
	r := c.r
	n := 2 + r.Intn(5)
	actionTime := pickI(r, 0, 1, 3, 10, 15)
	d := newDeal(r, "t", n, actionTime)
	for i := range d.T.State.PlayerStates {
		if r.Intn(3) > 0 {
			d.T.State.PlayerStates[i].Bankroll = int64(pickI(r, 3, 15, 20, 60, 150, 400, 1000, 1000, 5000))
		}
		if r.Intn(7) == 0 {
			d.T.State.PlayerStates[i].IsIn = false
		}
	}
	var bots []*botSeat
	for i := 0; i < n; i++ {
		bots = append(bots, newBotSeat(fmt.Sprintf("p%d", i), r.Intn(3) == 0))
	}
	bots = append(bots, newBotSeat("stranger", false)) // follows the table but is not seated there
	for _, b := range bots {
		b.ad.d = d
	}
	hands := 1 + r.Intn(4)
	c.log("table of %d, action time %d", n, actionTime)
	for h := 0; h < hands; h++ {
		if h > 0 && r.Intn(5) == 0 { // the table's clock was set back between the hands
			d.clock = 1 + r.Int63n(d.clock)
			c.hit("hand with an earlier clock")
		}
		if !d.start() {
			break
		}
		c.log("hand %s: ante %d blinds %+v", d.gs.GameID, d.gs.Meta.Ante, d.gs.Meta.Blind)
		if !botHand(c, d, bots) {
			return "bots"
		}
		if d.gs.Status.CurrentEvent != "GameClosed" {
			c.fail("the hand did not come to its end")
			return "bots"
		}
		c.hit("hand played to its end")
		d.settle()
		if !botShow(c, d, bots, "settled", nil) {
			return "bots"
		}
		d.standby()
		if !botShow(c, d, bots, "standby", nil) {
			return "bots"
		}
		if r.Intn(2) == 0 {
			for _, p := range d.T.State.PlayerStates {
				p.IsIn = true
			}
		}
	}
	return "bots"
}

// botShow delivers the table to the bots and collects their answers; want lists who has to answer (nil: nobody).
func botShow(c *Case, d *Deal, bots []*botSeat, what string, want map[string]int) bool {
	r := c.r
	before := len(c.bad)
	c.steps++
	for _, b := range bots {
		b.ad.moves = nil
		b.joins = nil
	}
	order := r.Perm(len(bots))
	n := map[string]int{}
	for _, i := range order {
		b := bots[i]
		n[b.id]++
		if err := b.ac.UpdateTableState(d.snapshot()); err != nil {
			c.fail("%s: bot %s reports %v", what, b.id, err)
		}
		c.events++
		if r.Intn(4) == 0 { // the same state once more (something else at the table changed)
			d.T.UpdateSerial++
			n[b.id]++
			if err := b.ac.UpdateTableState(d.snapshot()); err != nil {
				c.fail("%s: bot %s reports %v for a repeated state", what, b.id, err)
			}
			c.hit("repeated state")
		}
	}
	wait := time.Duration(0)
	if want != nil {
		wait = time.Duration(d.T.Meta.ActionTime)*time.Second + 37*time.Nanosecond
	}
	start := time.Now()
	if want != nil && r.Intn(3) == 0 {
		time.Sleep(wait / 3)
		b := bots[r.Intn(len(bots))]
		if d.old != nil && d.old.State.GameState.GameID == d.gs.GameID && r.Intn(2) == 0 {
			for _, b := range bots {
				n[b.id]++
				b.ac.UpdateTableState(jclone(d.old))
				synctest.Wait()
			}
			c.hit("outdated state while others think")
		} else if d.prev != nil && r.Intn(2) == 0 {
			for _, b := range bots {
				k := b.joins
				b.ac.UpdateTableState(jclone(d.prev))
				synctest.Wait()
				b.joins = k // it may ask to join once more
			}
			c.hit("late state of the hand before while others think")
		} else {
			n[b.id]++
			d.T.UpdateSerial++
			b.ac.UpdateTableState(d.snapshot())
		}
	}
	time.Sleep(wait - time.Since(start) + time.Duration(1+r.Int63n(1e6)))
	synctest.Wait()
	for _, b := range bots {
		c.annOK(b.ad, what)
		ps := -1
		for i, p := range d.T.State.PlayerStates {
			if p.PlayerID == b.id {
				ps = i
			}
		}
		wantJoins := 0
		if ps >= 0 && !d.T.State.PlayerStates[ps].IsIn {
			wantJoins = n[b.id]
		}
		if c.ok(len(b.joins) == wantJoins, "%s: bot %s asked to join %d times, %d expected", what, b.id, len(b.joins), wantJoins) && wantJoins > 0 {
			c.ok(b.joins[0] == d.T.Meta.CompetitionID+"/"+d.T.ID+"/"+b.id, "%s: the join request reads %s", what, b.joins[0])
			c.hit("asks to join")
		}
		gi, due := -1, false
		if want != nil {
			gi, due = want[b.id], false
			_, due = want[b.id]
		}
		if wantJoins > 0 {
			due = false
		}
		switch {
		case due && len(b.ad.moves) != 1:
			c.fail("%s: bot %s has moves %v open and made %d moves: %v", what, b.id, d.gs.Players[gi].AllowedActions, len(b.ad.moves), b.ad.moves)
		case !due && len(b.ad.moves) != 0:
			c.fail("%s: bot %s made %v without a move open", what, b.id, b.ad.moves)
		case due:
			m := b.ad.moves[0]
			c.cmds++
			c.ok(m.Who == b.id, "%s: bot %s moved for %s", what, b.id, m.Who)
			botMoveOK(c, d, b, gi, m, what)
			if b.human && m.At.Sub(start) > 0 {
				c.hit("thought before moving")
				c.ok(m.At.Sub(start) < time.Duration(d.T.Meta.ActionTime)*time.Second, "%s: bot %s moved %v after it was its turn, the action time is %d s", what, b.id, m.At.Sub(start), d.T.Meta.ActionTime)
			} else if !b.human {
				c.ok(!m.At.After(start), "%s: bot %s took its time without being humanized", what, b.id)
			}
		case ps >= 0 && want != nil:
			c.hit("keeps still")
		}
	}
	return len(c.bad) == before
}

func botMoveOK(c *Case, d *Deal, b *botSeat, gi int, m Move, what string) {
	al := d.gs.Players[gi].AllowedActions
	st := d.gs.Status
	p := d.gs.Players[gi]
	if !has(al, m.Kind) {
		c.fail("%s: bot %s made %v, allowed are %v", what, b.id, m, al)
		return
	}
	c.hit("move " + m.Kind)
	switch m.Kind {
	case "pay":
		due := d.due(gi)
		if st.CurrentEvent == "AnteRequested" {
			due = d.gs.Meta.Ante
			c.hit("ante")
		} else {
			c.hit("blind " + strings.Join(p.Positions, "+"))
		}
		c.ok(m.Chips == due, "%s: bot %s paid %d, due are %d", what, b.id, m.Chips, due)
	case "bet":
		lo := st.MiniBet
		if p.InitialStackSize < lo {
			lo = p.InitialStackSize
		}
		c.ok(m.Chips >= lo && m.Chips <= p.InitialStackSize && m.Chips > 0, "%s: bot %s bets %d, outside %d..%d", what, b.id, m.Chips, lo, p.InitialStackSize)
		if p.InitialStackSize <= st.MiniBet {
			c.hit("bet of a short stack")
		}
	case "raise":
		lo := st.CurrentWager + st.PreviousRaiseSize
		if p.InitialStackSize < lo {
			lo = p.InitialStackSize
			c.hit("raise of a short stack")
		}
		c.ok(m.Chips >= lo && m.Chips <= p.InitialStackSize && m.Chips > 0, "%s: bot %s raises to %d, outside %d..%d", what, b.id, m.Chips, lo, p.InitialStackSize)
	}
}

func botHand(c *Case, d *Deal, bots []*botSeat) bool {
	r := c.r
	d.old, d.prev, d.last = nil, d.last, nil
	for step := 0; step < 400; step++ {
		what := fmt.Sprintf("%s %s/%s", d.gs.GameID, d.gs.Status.Round, d.gs.Status.CurrentEvent)
		want := map[string]int{}
		for gi, pi := range d.T.State.GamePlayerIndexes {
			if len(d.gs.Players[gi].AllowedActions) > 0 {
				want[d.T.State.PlayerStates[pi].PlayerID] = gi
			}
		}
		// the table is not being played (paused in the middle of the hand)
		if r.Intn(15) == 0 {
			keep := d.T.State.Status
			d.T.State.Status = []pokertable.TableStateStatus{pokertable.TableStateStatus_TablePausing, pokertable.TableStateStatus_TableClosed, pokertable.TableStateStatus_TableGameOpened}[r.Intn(3)]
			if !botShow(c, d, bots, what+" (not playing)", nil) {
				return false
			}
			c.hit("open moves at a table that is not playing")
			d.T.State.Status = keep
			d.touch()
		}
		// the table stops while a bot is still thinking
		if r.Intn(12) == 0 && len(want) == 1 && d.T.Meta.ActionTime > 0 {
			for _, b := range bots {
				b.ad.moves = nil
				b.ac.UpdateTableState(d.snapshot())
			}
			time.Sleep(time.Duration(r.Intn(d.T.Meta.ActionTime))*time.Second/2 + time.Millisecond)
			synctest.Wait()
			keep := d.T.State.Status
			d.T.State.Status = pokertable.TableStateStatus_TablePausing
			d.touch()
			moved := map[string]int{}
			for _, b := range bots {
				moved[b.id] = len(b.ad.moves)
				b.ac.UpdateTableState(d.snapshot())
			}
			time.Sleep(time.Duration(d.T.Meta.ActionTime+1) * time.Second)
			synctest.Wait()
			for _, b := range bots {
				if !c.ok(len(b.ad.moves) == moved[b.id], "%s: bot %s moved %v after the table had stopped", what, b.id, b.ad.moves) {
					return false
				}
				if _, due := want[b.id]; due && b.human && moved[b.id] == 0 {
					c.hit("the table stops while a bot is thinking")
				}
			}
			d.T.State.Status = keep
			d.touch()
		}
		// the table refuses the moves made in this state; the next state asks again
		if r.Intn(12) == 0 && len(want) > 0 {
			for _, b := range bots {
				b.ad.moves, b.joins = nil, nil
				b.ad.onMove = func(Move) error { return fmt.Errorf("refused") }
				b.ac.UpdateTableState(d.snapshot())
			}
			time.Sleep(time.Duration(d.T.Meta.ActionTime)*time.Second + time.Millisecond)
			synctest.Wait()
			for _, b := range bots {
				c.annOK(b.ad, what+" (refused)")
				b.ad.onMove = nil
				gi, due := want[b.id]
				switch {
				case !due && len(b.ad.moves) > 0 || len(b.ad.moves) > 1:
					c.fail("%s: bot %s made %v", what, b.id, b.ad.moves)
				case len(b.ad.moves) == 1:
					c.hit("refused move")
					c.hitP("C38", "refused %s", b.ad.moves[0].Kind)
					botMoveOK(c, d, b, gi, b.ad.moves[0], what)
				}
			}
			if len(c.bad) > 0 {
				return false
			}
			d.touch()
		}
		c.log("%s: to move %v", what, want)
		if !botShow(c, d, bots, what, want) {
			return false
		}
		// an earlier state arriving late
		if d.old != nil && d.old.State.GameState.GameID == d.gs.GameID && r.Intn(5) == 0 {
			for _, b := range bots {
				b.ad.moves = append([]Move{}, b.ad.moves...)
				k := len(b.ad.moves)
				b.ac.UpdateTableState(jclone(d.old))
				synctest.Wait()
				c.ok(len(b.ad.moves) == k, "%s: bot %s answered an outdated state with %v", what, b.id, b.ad.moves[k:])
			}
			c.hit("outdated state")
		}
		if d.prev != nil && r.Intn(8) == 0 {
			for _, b := range bots {
				b.ad.moves = append([]Move{}, b.ad.moves...)
				k := len(b.ad.moves)
				b.ac.UpdateTableState(jclone(d.prev))
				synctest.Wait()
				c.ok(len(b.ad.moves) == k, "%s: bot %s answered a state of the hand before with %v", what, b.id, b.ad.moves[k:])
			}
			c.hit("late state of the hand before")
		}
		d.old = d.snapshot()
		if len(want) > 0 && (d.last == nil || r.Intn(4) == 0) {
			d.last = d.old
		}
		switch {
		case d.gs.Status.CurrentEvent == "GameClosed":
			return true
		case d.group() || d.gs.Status.CurrentEvent == "RoundClosed":
			d.advance()
		default:
			gi := d.gs.Status.CurrentPlayer
			if gi < 0 {
				c.fail("%s: nobody is to move", what)
				return false
			}
			who := d.playerOf(gi)
			var m *Move
			for _, b := range bots {
				if b.id == who && len(b.ad.moves) > 0 {
					m = &b.ad.moves[0]
				}
			}
			if m == nil {
				c.fail("%s: %s does not move", what, who)
				return false
			}
			c.log("   %v", *m)
			if err := d.apply(gi, *m); err != nil {
				c.fail("%s: the game refuses %v: %v", what, *m, err)
				return false
			}
		}
	}
	return true
}

// ---- C34

type prExpect struct {
	at    time.Time
	kind  string
	chips int64
}

func playerCase(c *Case) string {
	r := c.r
	n := 2 + r.Intn(3)
	actionTime := pickI(r, 0, 1, 2, 5, 10, 20, 45, 100, 400)
	if r.Intn(3) > 0 && actionTime == 0 {
		actionTime = 7
	}
	d := newDeal(r, "t", n, actionTime)
	for _, p := range d.T.State.PlayerStates {
		p.Bankroll = int64(pickI(r, 200, 1000, 1000, 4000, 40000))
	}
	me := "p0"
	threshold := pickI(r, 0, 1, 2, 2, 3, 5)
	ad := &seatAdapter{who: me, d: d}
	ac := actor.NewActor()
	rn := actor.NewPlayerRunner(me)
	if threshold != 2 || r.Intn(2) == 0 {
		rn.SetSuspendThreshold(threshold)
	}
	var modes []bool
	shownAny := false
	subs, unwanted, shows := true, 0, 0
	rn.OnAutoModeUpdated(func(tid string, on bool) {
		modes = append(modes, on)
		if shownAny {
			c.ok(tid == d.T.ID, "a switch of the auto mode at %s is announced for table %q", d.T.ID, tid)
		}
		if !subs {
			unwanted++
		}
	})
	var during func()
	rn.OnTableGameWagerActionUpdated(func(table, game string, count int, round, action string, chips int64) {
		ad.announced(table, game, count, round, action, chips)
		if during != nil {
			f := during
			during = nil
			f()
		}
	})
	ac.SetRunner(rn)
	ac.SetAdapter(ad)
	c.log("action time %d, suspended after %d further time-outs", actionTime, threshold)

	status, count := 0, 0 // 0 running, 1 idle, 2 auto
	var wantModes []bool
	rn.OnTableStateUpdated(func(*pokertable.Table) {
		shows++
		if !subs {
			unwanted++
		}
	})
	suspend := func() {
		status = 2
		if subs {
			wantModes = append(wantModes, true)
		}
	}
	resume := func() {
		if status != 0 {
			status, count = 0, 0
			if !subs {
				c.hitP("C38", "auto mode changes with events off")
			}
			if subs {
				wantModes = append(wantModes, false)
			}
		}
	}
	timeout := func() {
		switch status {
		case 0:
			status, count = 1, 0
		case 1:
			count++
		default:
			return
		}
		if count == threshold {
			suspend()
			c.hit("switched to auto mode")
		}
	}
	autoKind := func(al []string) string {
		for _, k := range []string{"ready", "check", "fold"} {
			if has(al, k) {
				return k
			}
		}
		return ""
	}
	checkModes := func(what string) {
		if unwanted > 0 {
			c.failP("C38", "%s: %d table states or auto-mode changes were announced while events are off", what, unwanted)
		}
		c.ok(fmt.Sprint(modes) == fmt.Sprint(wantModes), "%s: auto mode announcements %v, expected %v", what, modes, wantModes)
		tid, on := rn.IsAutoMode()
		c.ok(tid == d.T.ID, "%s: the mode is reported for table %q", what, tid)
		c.ok(status != 2 || on, "%s: auto mode is reported off", what)
		c.ok(status != 0 || !on, "%s: auto mode is reported on", what)
	}
	lazy := r.Float64()
	ownP := pickI(r, 0, 20, 50, 80)
	expectMoves := func(what string, want []prExpect) bool {
		c.annOK(ad, what)
		if len(ad.moves) != len(want) {
			c.fail("%s: the player made %v, expected %v", what, ad.moves, want)
			return false
		}
		for i, w := range want {
			m := ad.moves[i]
			if m.Kind != w.kind || m.Chips != w.chips || m.Who != me {
				c.fail("%s: the player made %v, expected %s %d", what, m, w.kind, w.chips)
				return false
			}
			if !m.At.Equal(w.at) {
				c.fail("%s: the automatic move %v came at %v, expected %v after", what, m, m.At.Sub(w.at), 0)
				return false
			}
		}
		return true
	}
	for h := 0; h < 6; h++ {
		if d.T.State.PlayerStates[0].Bankroll == 0 || !d.start() {
			break
		}
		c.log("hand %s: ante %d blinds %+v", d.gs.GameID, d.gs.Meta.Ante, d.gs.Meta.Blind)
		if r.Intn(6) == 0 {
			subs = !subs
			rn.SetEventSubscribed(subs)
		}
		shows = 0
		delivered := false
		var shown *pokertable.Table
		d.old, d.prev, d.last = nil, d.last, nil
		for step := 0; step < 300; step++ {
			c.steps++
			d.old, shown = shown, d.snapshot()
			if _, a := d.allowed(me); len(a) > 0 && (d.last == nil || r.Intn(4) == 0) {
				d.last = shown
			}
			gi, al := d.allowed(me)
			what := fmt.Sprintf("%s %s/%s %v", d.gs.GameID, d.gs.Status.Round, d.gs.Status.CurrentEvent, al)
			ev := d.gs.Status.CurrentEvent
			t0 := time.Now()
			var pending bool
			var want []prExpect
			immediate := false
			decide := func() { // what the delivery of this state has to lead to
				switch {
				case len(al) == 0:
				case has(al, "pass"):
					want = append(want, prExpect{t0, "pass", 0})
					immediate = true
					c.hit("passes")
				case ev == "AnteRequested":
					want = append(want, prExpect{t0, "pay", d.gs.Meta.Ante})
					immediate = true
					c.hit("pays the ante")
				case ev == "BlindsRequested":
					want = append(want, prExpect{t0, "pay", d.due(gi)})
					immediate = true
					c.hit("pays a blind")
				case status == 2:
					want = append(want, prExpect{t0, autoKind(al), 0})
					immediate = true
					c.hit("moves at once in auto mode")
				case actionTime == 0:
					timeout()
					want = append(want, prExpect{t0, autoKind(al), 0})
					immediate = true
				default:
					pending = true
				}
			}
			if !delivered {
				ad.moves = nil
				decide()
				shownAny = true
				refuse := immediate && r.Intn(12) == 0
				if refuse {
					ad.onMove = func(Move) error { return fmt.Errorf("refused") }
				}
				if err := ac.UpdateTableState(d.snapshot()); err != nil && !refuse {
					c.fail("%s: %v", what, err)
				}
				c.events++
				synctest.Wait()
				if refuse { // the table refuses the move; the next state asks again
					ad.onMove = nil
					c.hit("refused automatic move")
					c.hitP("C38", "refused automatic move")
					if !expectMoves(what+" (refused)", want) {
						return "player"
					}
					checkModes(what)
					d.touch()
					continue
				}
			} else { // was delivered while the player's previous move was still being handled
				ad.moves = nil
				decide()
				want, immediate = nil, false
				if !pending {
					panic("harness: only states with a pending move are delivered early")
				}
				c.hit("the next turn came up during the move")
			}
			delivered = false
			if !expectMoves(what, want) {
				return "player"
			}
			checkModes(what)
			if len(c.bad) > 0 {
				return "player"
			}
			var mv *Move
			if immediate {
				m := ad.moves[0]
				mv = &m
				c.hit("immediate")
			}
			deadline := t0.Add(time.Duration(actionTime) * time.Second)
			if pending {
				// things that happen while the player thinks
				own := r.Intn(100) < ownP && !(lazy < 0.5 && has(al, "ready"))
				late := func() {
					if d.prev != nil {
						ac.UpdateTableState(jclone(d.prev))
						c.hit("late state of the hand before")
						synctest.Wait()
					}
				}
				if r.Intn(6) == 0 {
					late()
				}
				for k := r.Intn(3); k > 0; k-- {
					left := time.Until(deadline)
					if left <= 2*time.Millisecond {
						break
					}
					time.Sleep(time.Duration(1 + r.Int63n(int64(left)-int64(2*time.Millisecond)+1)/2))
					switch r.Intn(7) {
					case 6:
						if d.old != nil && d.old.State.GameState.GameID == d.gs.GameID {
							ac.UpdateTableState(jclone(d.old))
							c.hit("outdated state while thinking")
						}
					case 0:
						d.T.UpdateSerial++
						ac.UpdateTableState(d.snapshot())
						c.hit("repeated state while thinking")
					case 1:
						if r.Intn(2) == 0 {
							rn.AutoMode(true)
						} else {
							rn.Suspend()
						}
						suspend()
						c.hit("auto mode switched on while thinking")
					case 2:
						if r.Intn(2) == 0 {
							rn.AutoMode(false)
						} else {
							rn.Resume()
						}
						resume()
						c.hit("resumes while thinking")
					case 3:
						ad.onMove = func(Move) error { return fmt.Errorf("refused") }
						k0 := len(ad.moves)
						var e error
						k := r.Intn(9)
						switch {
						case k == 0:
							e = rn.Bet(5)
						case k == 1:
							e = rn.Call()
						case k == 2:
							e = rn.Allin()
						case k == 3:
							e = rn.Raise(5)
						case k == 4:
							e = rn.Pay(5)
						case k == 5:
							e = rn.Ready()
						case k == 6:
							e = rn.Pass()
						case k == 7 && status == 0:
							e = rn.Fold()
						default:
							e = rn.Check()
						}
						if e == nil {
							c.fail("%s: a refused move (%d) is not reported", what, k)
						}
						ad.onMove = nil
						ad.moves = ad.moves[:k0]
						c.hit("refused move while thinking")
						c.hitP("C38", "refused own move")
					}
					synctest.Wait()
					if !expectMoves(what+" (thinking)", nil) {
						return "player"
					}
					checkModes(what)
				}
				if r.Intn(10) == 0 && status != 0 || r.Intn(25) == 0 {
					// the table goes on without the player's move
					if r.Intn(2) == 0 {
						keep := d.T.State.Status
						d.T.State.Status = []pokertable.TableStateStatus{pokertable.TableStateStatus_TablePausing, pokertable.TableStateStatus_TableClosed}[r.Intn(2)]
						d.touch()
						ac.UpdateTableState(d.snapshot())
						d.T.State.Status = keep
						time.Sleep(time.Until(deadline) + time.Second)
						synctest.Wait()
						c.hit("the table stops while the player thinks")
						if !expectMoves(what+" (the table has stopped)", nil) {
							return "player"
						}
						d.touch()
						continue
					}
					if k := autoKind(al); k != "" && k != "ready" {
						if err := d.apply(gi, Move{Who: me, Kind: k}); err != nil {
							c.fail("%s: the game refuses %s: %v", what, k, err)
							return "player"
						}
						c.hit("the table moves on while the player thinks")
						if _, a2 := d.allowed(me); len(a2) == 0 {
							ac.UpdateTableState(d.snapshot())
							time.Sleep(time.Until(deadline) + time.Second)
							synctest.Wait()
							if !expectMoves(what+" (the table has moved on)", nil) {
								return "player"
							}
							d.touch()
						}
						continue
					}
				}
				if own {
					kind := al[r.Intn(len(al))]
					if kind == "allin" && r.Intn(4) > 0 && len(al) > 1 {
						kind = al[(r.Intn(len(al)-1)+1)%len(al)]
					}
					chips := int64(0)
					p := d.gs.Players[gi]
					switch kind {
					case "bet":
						chips = d.gs.Status.MiniBet
						if chips > p.InitialStackSize {
							chips = p.InitialStackSize
						}
					case "raise":
						chips = d.gs.Status.CurrentWager + d.gs.Status.PreviousRaiseSize
						if chips > p.InitialStackSize {
							chips = p.InitialStackSize
						}
					}
					c.hit("own " + kind)
					// sometimes the table goes on before the move returns, up to the player's next turn
					early := kind != "ready" && r.Intn(3) == 0
					ranAhead := false
					goOn := func() {
						m := ad.moves[len(ad.moves)-1]
						if err := d.apply(gi, m); err != nil {
							c.fail("%s: the game refuses %v: %v", what, m, err)
							return
						}
						ranAhead = true
						for i := 0; i < 60; i++ {
							g2, a2 := d.allowed(me)
							if d.gs.Status.CurrentEvent == "GameClosed" {
								return
							}
							if len(a2) > 0 {
								if !has(a2, "pass") && status == 1 || status == 0 && !has(a2, "pass") {
									if actionTime > 0 {
										ac.UpdateTableState(d.snapshot())
										delivered = true
									}
								}
								_ = g2
								return
							}
							ac.UpdateTableState(d.snapshot())
							if !othersMove(c, d, me) {
								return
							}
						}
					}
					if early {
						if r.Intn(2) == 0 {
							ad.onMove = func(Move) error { ad.onMove = nil; goOn(); return nil }
						} else if kind != "pass" {
							during = goOn
						}
					}
					var err error
					preFold := status
					if kind == "fold" {
						resume()
					}
					_ = preFold
					switch kind {
					case "ready":
						err = rn.Ready()
					case "check":
						err = rn.Check()
					case "call":
						err = rn.Call()
					case "fold":
						err = rn.Fold()
					case "allin":
						err = rn.Allin()
					case "bet":
						err = rn.Bet(chips)
					case "raise":
						err = rn.Raise(chips)
					default:
						err = fmt.Errorf("harness: no %s", kind)
					}
					count = 0
					during, ad.onMove = nil, nil
					if err != nil {
						c.fail("%s: own %s: %v", what, kind, err)
						return "player"
					}
					synctest.Wait()
					if !expectMoves(what+" (own move)", []prExpect{{time.Now(), kind, chips}}) {
						return "player"
					}
					checkModes(what)
					if ranAhead {
						if delivered {
							c.hit("went on during the move")
						}
						if d.gs.Status.CurrentEvent == "GameClosed" {
							break
						}
						continue
					}
					// past the deadline, nothing more may come
					if r.Intn(2) == 0 {
						time.Sleep(time.Until(deadline) + time.Second)
						synctest.Wait()
						if !expectMoves(what+" (after the own move)", []prExpect{{ad.moves[0].At, kind, chips}}) {
							return "player"
						}
						c.hit("own move cancels the automatic one")
					}
					m := ad.moves[0]
					mv = &m
				} else {
					time.Sleep(time.Until(deadline) - time.Millisecond)
					synctest.Wait()
					if !expectMoves(what+" (just before the time is over)", nil) {
						return "player"
					}
					k := autoKind(al)
					// the table may go on, even to the end of the hand, before the automatic move has returned
					over := false
					refuse := k != "" && r.Intn(10) == 0
					if refuse {
						ad.onMove = func(Move) error { return fmt.Errorf("refused") }
					} else if k != "ready" && k != "" && r.Intn(3) == 0 {
						ad.onMove = func(m Move) error {
							ad.onMove = nil
							if err := d.apply(gi, m); err != nil {
								c.fail("%s: the game refuses %v: %v", what, m, err)
								return nil
							}
							over = true
							for i := 0; i < 80 && d.gs.Status.CurrentEvent != "GameClosed"; i++ {
								if _, a2 := d.allowed(me); len(a2) > 0 {
									return nil
								}
								ac.UpdateTableState(d.snapshot())
								if !othersMove(c, d, me) {
									return nil
								}
							}
							ac.UpdateTableState(d.snapshot())
							d.settle()
							ac.UpdateTableState(d.snapshot())
							keep := d.gs
							idx := d.T.State.GamePlayerIndexes
							d.standby()
							ac.UpdateTableState(d.snapshot())
							d.T.State.GameState, d.T.State.GamePlayerIndexes = keep, idx
							c.hit("the automatic move ends the hand")
							return nil
						}
					}
					time.Sleep(time.Millisecond)
					synctest.Wait()
					ad.onMove = nil
					timeout()
					if k == "" {
						break
					}
					c.hit("auto " + k)
					if !expectMoves(what+" (time-out)", []prExpect{{deadline, k, 0}}) {
						return "player"
					}
					checkModes(what + " (time-out)")
					if refuse {
						c.hit("refused automatic move")
						c.hitP("C38", "refused automatic move")
						d.touch()
						continue
					}
					m := ad.moves[0]
					mv = &m
					time.Sleep(time.Duration(r.Intn(3*actionTime+1)) * time.Second / 2)
					synctest.Wait()
					if !expectMoves(what+" (after the time-out)", []prExpect{{deadline, k, 0}}) {
						return "player"
					}
					if over {
						if d.gs.Status.CurrentEvent == "GameClosed" {
							break
						}
						continue
					}
				}
			}
			if len(c.bad) > 0 {
				return "player"
			}
			if ev == "GameClosed" {
				break
			}
			if !pending && !immediate {
				// between moves the player may switch
				switch r.Intn(40) {
				case 0:
					rn.AutoMode(true)
					suspend()
				case 1, 2:
					rn.AutoMode(false)
					resume()
					c.hit("resumed")
				}
			}
			if mv != nil && !d.group() {
				if err := d.apply(gi, *mv); err != nil {
					c.fail("%s: the game refuses %v: %v", what, *mv, err)
					return "player"
				}
				continue
			}
			if !othersMove(c, d, me) {
				return "player"
			}
			time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
		}
		if d.gs.Status.CurrentEvent != "GameClosed" {
			break
		}
		d.settle()
		ad.moves = nil
		ac.UpdateTableState(d.snapshot())
		d.standby()
		ac.UpdateTableState(d.snapshot())
		time.Sleep(time.Duration(30+actionTime) * time.Second)
		synctest.Wait()
		if !expectMoves("between hands", nil) {
			return "player"
		}
		c.hit("hand over")
		if unwanted > 0 {
			c.failP("C38", "%d table states or auto-mode changes were announced while events are off", unwanted)
		}
		if subs && shows == 0 {
			c.failP("C38", "no table state was announced while events are on")
		}
		c.hitP("C38", "hand with events %v", subs)
	}
	return "player"
}

// othersMove lets the table go one state further, with plain moves of the others.
func othersMove(c *Case, d *Deal, me string) bool {
	r := d.r
	if d.group() || d.gs.Status.CurrentEvent == "RoundClosed" {
		d.advance()
		return true
	}
	gi := d.gs.Status.CurrentPlayer
	if gi < 0 || len(d.gs.Players[gi].AllowedActions) == 0 {
		return false
	}
	al := d.gs.Players[gi].AllowedActions
	kind := ""
	pref := []string{"pass", "check", "call", "fold", "allin"}
	if r.Intn(8) == 0 {
		pref = []string{"pass", "raise", "bet", "call", "check", "fold", "allin"}
	}
	if r.Intn(12) == 0 {
		pref = []string{"pass", "fold", "check", "allin"}
	}
	for _, k := range pref {
		if has(al, k) {
			kind = k
			break
		}
	}
	st := d.gs.Status
	p := d.gs.Players[gi]
	chips := int64(0)
	if kind == "bet" {
		chips = st.MiniBet
	}
	if kind == "raise" {
		chips = st.CurrentWager + st.PreviousRaiseSize
	}
	if chips > p.InitialStackSize {
		chips = p.InitialStackSize
	}
	if err := d.apply(gi, Move{Kind: kind, Chips: chips}); err != nil {
		panic(fmt.Sprintf("harness: %s: %v %v", kind, al, err))
	}
	return true
}

// ---- C35

func jstr(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func viewCase(c *Case) string {
	r := c.r
	n := 2 + r.Intn(5)
	d := newDeal(r, "t", n, 1000)
	for _, p := range d.T.State.PlayerStates {
		p.Bankroll = int64(pickI(r, 5, 60, 150, 400, 1000, 1000))
		p.IsIn = r.Intn(8) > 0
	}
	type viewer struct {
		id   string
		ac   actor.Actor
		rn   *actor.PlayerRunner
		ad   *seatAdapter
		got  []*pokertable.Table
		subs bool
	}
	var vs []*viewer
	add := func(id string) {
		v := &viewer{id: id, subs: true, ad: &seatAdapter{who: id}}
		v.ac = actor.NewActor()
		v.rn = actor.NewPlayerRunner(id)
		v.rn.OnTableStateUpdated(func(t *pokertable.Table) { v.got = append(v.got, t) })
		if r.Intn(8) == 0 {
			v.subs = false
			v.rn.SetEventSubscribed(false)
		}
		v.ac.SetRunner(v.rn)
		v.ac.SetAdapter(v.ad)
		vs = append(vs, v)
	}
	for i := 0; i < n; i++ {
		add(fmt.Sprintf("p%d", i))
	}
	add("stranger")
	show := func(what string) bool {
		c.steps++
		shared := d.snapshot() // one object for everybody
		before := jstr(shared)
		for _, i := range r.Perm(len(vs)) {
			v := vs[i]
			v.got = nil
			v.ac.UpdateTableState(shared)
			c.events++
			if now := jstr(shared); now != before {
				c.fail("%s: showing the table to %s changed it", what, v.id)
				return false
			}
			if !v.subs {
				c.ok(len(v.got) == 0, "%s: %s is shown the table without having subscribed", what, v.id)
				c.hit("not subscribed")
				continue
			}
			if len(v.got) == 0 && shared.State.GameState == nil {
				continue
			}
			for _, g := range v.got {
				viewOK(c, what, v.id, shared, g)
				c.hit("view " + what)
				// whatever the player does to its view stays there
				if g.State.GameState != nil {
					for _, p := range g.State.GameState.Players {
						p.HoleCards = []string{"XX"}
						p.StackSize = -5
					}
					g.State.GameState.Status.Board = append(g.State.GameState.Status.Board, "XX")
				}
				for _, p := range g.State.PlayerStates {
					p.Bankroll = -7
				}
				g.State.Status = "spoilt"
			}
			if now := jstr(shared); now != before {
				c.fail("%s: the view of %s is part of the shared table", what, v.id)
				return false
			}
		}
		return len(c.bad) == 0
	}
	for h := 0; h < 2; h++ {
		if !d.start() {
			break
		}
		c.log("hand %s with %d players", d.gs.GameID, len(d.T.State.GamePlayerIndexes))
		for step := 0; step < 200; step++ {
			ev := d.gs.Status.CurrentEvent
			what := "playing"
			keep := d.T.State.Status
			if ev == "GameClosed" {
				what = "closed"
			}
			if !show(what) {
				return "view"
			}
			switch r.Intn(6) {
			case 0:
				all := []pokertable.TableStateStatus{pokertable.TableStateStatus_TablePausing, pokertable.TableStateStatus_TableClosed, pokertable.TableStateStatus_TableGameOpened, pokertable.TableStateStatus_TableGameStandby, pokertable.TableStateStatus_TableBalancing, pokertable.TableStateStatus_TableCreated}
				d.T.State.Status = all[r.Intn(len(all))]
				if r.Intn(2) == 0 {
					d.touch()
				}
				if !show(what + " " + string(d.T.State.Status)) {
					return "view"
				}
				d.T.State.Status = keep
			case 1:
				d.T.UpdateSerial++
				if !show(what + " again") {
					return "view"
				}
			}
			if ev == "GameClosed" {
				break
			}
			if !othersMove(c, d, "") {
				break
			}
		}
		if d.gs.Status.CurrentEvent != "GameClosed" {
			break
		}
		d.settle()
		if !show("settled") {
			return "view"
		}
		d.standby()
		if !show("standby") {
			return "view"
		}
	}
	for _, v := range vs { // no pending automatic moves may survive the case
		v.rn.Suspend()
	}
	time.Sleep(2000 * time.Second)
	synctest.Wait()
	return "view"
}

// viewOK decides what a player may be shown of a table.
func viewOK(c *Case, what, who string, t, g *pokertable.Table) {
	want := jclone(t)
	if (t.State.GameState == nil) != (g.State.GameState == nil) {
		c.fail("%s: %s is shown a different game", what, who)
		return
	}
	if gs := want.State.GameState; gs != nil {
		gi := -1
		for i, pi := range t.State.GamePlayerIndexes {
			if t.State.PlayerStates[pi].PlayerID == who {
				gi = i
			}
		}
		got := g.State.GameState
		c.ok(len(got.Meta.Deck) == 0, "%s: %s sees the deck", what, who)
		c.ok(len(got.Status.Burned) == 0, "%s: %s sees the burned cards", what, who)
		for i, p := range gs.Players {
			q := got.Players[i]
			if p.Idx == gi {
				continue
			}
			hidden := gs.Status.CurrentEvent != "GameClosed" || p.Fold
			if hidden {
				c.ok(len(q.HoleCards) == 0, "%s: %s sees the cards %v of another player", what, who, q.HoleCards)
				c.ok(q.Combination == nil, "%s: %s sees the combination of another player", what, who)
				if len(p.HoleCards) > 0 {
					c.hit("hidden cards")
				}
				p.HoleCards, p.Combination = q.HoleCards, q.Combination
			} else if len(p.HoleCards) > 0 {
				c.hit("shown cards")
			}
		}
		gs.Meta.Deck, gs.Status.Burned = got.Meta.Deck, got.Status.Burned
	}
	if a, b := jstr(want), jstr(g); a != b {
		c.fail("%s: %s is shown something else than the table:\n%s\n%s", what, who, a, b)
	}
}

var _ = sort.Strings
