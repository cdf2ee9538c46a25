package vh

import (
	"fmt"

	pc "github.com/weedbox/pokercompetition"
)

// State announcements (C37): each names what happened and carries the state after it.

// snap is the state a state announcement carried, taken inside the announcement.
type snap struct {
	Status        pc.CompetitionStateStatus
	Level         int
	BuyIn, Addon  int
	Tables        map[string]bool
	Players       map[string]snapP
	CompetitionID string
}

type snapP struct {
	Status pc.CompetitionPlayerStatus
	Chips  int64
	Units  int
	CR     int
}

func takeSnap(c *pc.Competition) *snap {
	x := &snap{Status: c.State.Status, Level: c.State.BlindState.CurrentLevelIndex, BuyIn: c.State.Statistic.TotalBuyInCount,
		Addon: c.State.Statistic.TotalAddonCount, Tables: map[string]bool{}, Players: map[string]snapP{}, CompetitionID: c.ID}
	for _, t := range c.State.Tables {
		x.Tables[t.ID] = true
	}
	for _, p := range c.State.Players {
		x.Players[p.PlayerID] = snapP{p.Status, p.Chips, p.TotalBuyInUnits, p.CompetitionRank}
	}
	return x
}

// note is one announcement the step must make; ok judges the state it carries.
type note struct {
	ev, what string
	ok       func(*snap) bool
}

func (s *Spec) noteAdd(n note) {
	s.notes = append(s.notes, n)
	s.hit("C37", "%s:%s:%s", n.ev, s.op, s.c.State.Status)
}

// noteStat: the totals changed by id's request.
func (s *Spec) noteStat(id string) {
	b, a := s.c.State.Statistic.TotalBuyInCount, s.c.State.Statistic.TotalAddonCount
	p := findP(s.c, id)
	var chips int64
	if p != nil {
		chips = p.Chips
	}
	s.noteAdd(note{ev: pc.CompetitionStateEvent_CompetitionStatisticUpdated, what: "the totals after " + id, ok: func(x *snap) bool {
		q, in := x.Players[id]
		return x.BuyIn == b && x.Addon == a && in == (p != nil) && (p == nil || q.Chips == chips)
	}})
}

func (s *Spec) notePaid(ids []string) {
	ids = cpStrs(ids)
	s.noteAdd(note{ev: pc.CompetitionStateEvent_CashOutPlayers, what: fmt.Sprintf("%v paid and gone", ids), ok: func(x *snap) bool {
		for _, id := range ids {
			if _, in := x.Players[id]; in {
				return false
			}
		}
		return true
	}})
}

// noteOut: players that were put out.
func (s *Spec) noteOut(why string, ids []string, st pc.CompetitionPlayerStatus) {
	if len(ids) == 0 {
		return
	}
	ids = cpStrs(ids)
	s.noteAdd(note{ev: pc.CompetitionStateEvent_KnockoutPlayers, what: fmt.Sprintf("%s: %v are %s", why, ids, st), ok: func(x *snap) bool {
		for _, id := range ids {
			if q, in := x.Players[id]; !in || q.Status != st {
				return false
			}
		}
		return true
	}})
}

func (s *Spec) noteTable(id string, in bool) {
	what := "table " + id + " closed"
	if in {
		what = "table " + id + " opened"
	}
	s.noteAdd(note{ev: pc.CompetitionStateEvent_TableUpdated, what: what, ok: func(x *snap) bool { return x.Tables[id] == in }})
}

func (s *Spec) noteBlind(ev string) {
	lv, st := s.c.State.BlindState.CurrentLevelIndex, s.c.State.Status
	s.noteAdd(note{ev: ev, what: fmt.Sprintf("blind level %d, %s", lv, st), ok: func(x *snap) bool {
		return x.Level == lv && x.Status == st
	}})
}

// noteRanks: somebody is told the current standings.
func (s *Spec) noteRanks() {
	cr := map[string]int{}
	for _, p := range s.c.State.Players {
		if !s.freeRank[p.PlayerID] {
			cr[p.PlayerID] = p.CompetitionRank
		}
	}
	s.noteAdd(note{ev: pc.CompetitionStateEvent_PlayerRankUpdated, what: "the standings", ok: func(x *snap) bool {
		for id, n := range cr {
			if q, in := x.Players[id]; in && q.CR != n {
				return false
			}
		}
		return true
	}})
}

func (s *Spec) checkNotes(ev *Ev) {
	content := !s.multi && s.op != "conc"
	kinds := map[string]int{}
	for _, n := range s.notes {
		kinds[n.ev]++
		if ev.nStates(n.ev) == 0 {
			s.badF(P("C37"), "not announced: %s (%s)", n.ev, n.what)
			continue
		}
		if !content || (n.ev == pc.CompetitionStateEvent_PlayerRankUpdated && (!s.rankComparable || ended(s.c))) {
			continue
		}
		ok := false
		for i, k := range ev.States {
			if k == n.ev && n.ok(ev.Snaps[i]) {
				ok = true
			}
		}
		if !ok {
			s.badF(P("C37"), "no %s announcement shows the state after the change (%s)", n.ev, n.what)
		}
	}
	// these happen as often as they are announced
	for _, k := range []string{pc.CompetitionStateEvent_BlindActivated, pc.CompetitionStateEvent_CashOutPlayers} {
		if n := ev.nStates(k); n != kinds[k] {
			s.badF(P("C37"), "%d %s announcements, expected %d", n, k, kinds[k])
		}
	}
	for _, x := range ev.Snaps {
		if x.CompetitionID != s.c.ID {
			s.badF(P("C37", "C29"), "a state announcement carried competition %q", x.CompetitionID)
		}
	}
}
