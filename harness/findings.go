package vh

// Deterministic scenarios of the open findings (known_findings.txt). Each counts "known" only when the
// system fails in exactly the listed way; any other deviation is reported as usual.

import (
	"fmt"
	"math/rand"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
)

// overfillCase: an MTT whose regulator waits for more players than two thirds of two tables.
func overfillCase(res *Result, idx int, r *rand.Rand) {
	prof := profileOf("", r)
	set := genSetting(r, mtt, fmt.Sprintf("o%d", idx))
	set.Meta.TableMaxSeatCount = 6
	set.Meta.RegulatorMinInitialPlayerCount = 6
	set.Meta.MaxPlayerCount = 100
	set.StartAt = unset
	w := newWorld(r, prof, set)
	if w.create() {
		for i := 0; i < 15 && !w.stop(); i++ {
			w.opBuyIn(fmt.Sprintf("of%d", i), 100, 1)
		}
		if !w.stop() {
			w.opStart()
		}
	}
	w.guard("teardown", func() { w.ce.CloseCompetition(pc.CompetitionStateStatus_ForceEnd) })
	res.add(idx, w, "overfill")
}

// overfillExpected: only such settings make the pinned regulator library ask for overfull tables.
func overfillExpected(c *pc.Competition) bool {
	return c.Meta.RegulatorMinInitialPlayerCount > (2*c.Meta.TableMaxSeatCount+1)/3
}

// sharedNativeCase: two competitions over one native table backend. The backend holds one callback per kind
// of event and every new competition replaces it.
func sharedNativeCase(c *Case) string {
	m := &recManager{}
	man := pc.NewManager(pc.NewNativeTableManagerBackend(m))
	c.log("two CTs over one native table backend")
	ids := []string{"na", "nb"}
	for _, id := range ids {
		set := genSetting(c.r, ct, id)
		set.StartAt = unset
		m.table = randTable(c.r)
		m.table.ID = set.TableSettings[0].TableID
		m.table.Meta.CompetitionID = id
		m.table.State.PlayerStates = []*pokertable.TablePlayerState{}
		m.table.State.GameState = nil
		m.table.State.Status = pokertable.TableStateStatus_TableCreated
		set.TableSettings = set.TableSettings[:1]
		set.TableSettings[0].JoinPlayers = nil
		_, err := man.CreateCompetition(set, pc.NewDefaultCompetitionEngineOptions())
		if !c.ok(err == nil, "creation failed: %v", err) {
			return "native"
		}
		c.ok(man.PlayerBuyIn(id, pc.JoinPlayer{PlayerID: "p", RedeemChips: 100, Unit: 1}) == nil, "buy-in refused")
	}
	seat := func(id string) int {
		e, err := man.GetCompetitionEngine(id)
		if err != nil {
			return -2
		}
		return findP(e.GetCompetition(), "p").CurrentSeat
	}
	tid := func(i int) string {
		e, _ := man.GetCompetitionEngine(ids[i])
		return e.GetCompetition().State.Tables[0].ID
	}
	say := func(i, s int) {
		m.cbs[i].OnTablePlayerReserved(ids[i], tid(i), &pokertable.TablePlayerState{PlayerID: "p", Seat: s, Bankroll: 100, Positions: []string{}})
	}
	say(0, 1)
	a1, b1 := seat("na"), seat("nb")
	say(1, 2)
	a2, b2 := seat("na"), seat("nb")
	c.log("after seat 1 at na: %d %d, after seat 2 at nb: %d %d", a1, b1, a2, b2)
	c.hit("shared native backend")
	got := [4]int{a1, b1, a2, b2}
	switch got {
	case [4]int{1, unset, 1, 2}: // both heard their own table
	case [4]int{unset, 1, unset, 2}: // the last one created hears both
		c.known["C29/native-callbacks"]++
	default:
		c.fail("of the reservations of seat 1 at na and seat 2 at nb the competitions show %v", got)
	}
	for _, id := range ids {
		man.CloseCompetition(id, pc.CompetitionStateStatus_ForceEnd)
	}
	return "native"
}

// KnownRetry: the balancer library asks for the same seating for ever when the table keeps refusing it.
const KnownRetry = "C32/regulator-retry-loop"

// KnownLost: the balancer library forgets the queued players of a seating or table that failed.
const KnownLost = "C32/regulator-lost-players"

func smallMTT(r *rand.Rand, idx, n int) *World {
	set := genSetting(r, mtt, fmt.Sprintf("f%d", idx))
	set.Meta.TableMaxSeatCount = 6
	set.Meta.RegulatorMinInitialPlayerCount = 3
	set.Meta.MinPlayerCount = 3
	set.Meta.MaxPlayerCount = 100
	set.Meta.Blind.InitialLevel = 1
	set.Meta.Blind.FinalBuyInLevelIndex = 0
	set.Meta.Blind.Levels = []pc.BlindLevel{{Level: 1, SB: 1, BB: 2, Duration: 1000}, {Level: 2, SB: 2, BB: 4, Duration: 1000}}
	set.StartAt = unset
	prof := generalProfile()
	prof.NoLedger = true
	w := newWorld(r, prof, set)
	w.loose = true
	if !w.create() {
		return nil
	}
	for i := 0; i < n; i++ {
		w.opBuyIn(fmt.Sprintf("q%d", i), 100, 1)
	}
	w.opStart()
	w.drain(true)
	return w
}

// retryCase: a table that needs one player keeps refusing the players of a broken table.
func retryCase(res *Result, idx int, r *rand.Rand) {
	var w *World
	for try := 0; try < 50; try++ { // until enough players bust together
		if w = smallMTT(r, idx, 8); w == nil || w.stop() {
			break
		}
		w.opBuyIn("q8", 100, 1)
		w.drain(true)
		same := map[string]int{}
		w.be.Fault = func(kind, table string) error {
			if kind != "UpdateTablePlayers" || len(w.be.Cmds[len(w.be.Cmds)-1].Joins) == 0 {
				return nil
			}
			return ErrFakeInjected
		}
		w.be.Tired = func(c *Cmd) bool {
			k := fmt.Sprint(c.Table, joinKey(c.Joins))
			if same[k]++; same[k] > 60 {
				w.known = KnownRetry
				return true
			}
			return false
		}
		w.after = func(string) { clear(same) }
		for i := 0; i < 300 && !w.stop(); i++ {
			for _, ft := range w.tables() {
				w.prof.Bust = 0.01
				if len(ft.T.State.PlayerStates) == 5 {
					w.prof.Bust = 0.95
				}
				if w.tableAct(ft) {
					w.flushTable(ft)
				}
				if w.stop() {
					break
				}
			}
			if !w.stop() {
				w.pass(time.Second)
			}
		}
		w.be.Fault, w.be.Tired = nil, nil
		if w.stop() {
			break
		}
		w.guard("teardown", func() { w.ce.CloseCompetition(pc.CompetitionStateStatus_ForceEnd) })
	}
	res.add(idx, w, "finding")
}

// lostCase: one refused seating.
func lostCase(res *Result, idx int, r *rand.Rand) {
	w := smallMTT(r, idx, 4)
	if w != nil && !w.stop() {
		n := 0
		w.be.Fault = func(kind, table string) error {
			if kind != "UpdateTablePlayers" || n > 0 {
				return nil
			}
			n++
			return ErrFakeInjected
		}
		w.opBuyIn("lost", 100, 1)
		w.opBuyIn("next", 100, 1)
		w.drain(true)
		if !w.stop() && n == 1 {
			if w.seatedAt("lost") == nil && w.seatedAt("next") != nil {
				w.known = KnownLost
			} else if w.seatedAt("lost") == nil || w.seatedAt("next") == nil {
				w.flag(P("C32"), "after a refused seating: lost seated %v, next seated %v", w.seatedAt("lost") != nil, w.seatedAt("next") != nil)
			}
		}
	}
	res.add(idx, w, "finding")
}
