package vh

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	pc "github.com/weedbox/pokercompetition"
)

// Ev is everything announced during one step.
type Ev struct {
	Upd     []*pc.Competition
	Errs    []error
	Players []*pc.CompetitionPlayer
	Ranks   []rankEv
	States  []string
	Snaps   []*snap // the state each of States carried
	Cash    []*pc.CompetitionPlayer
	Adv     []int
	Created []string
	Serials []int64
}

func (e *Ev) nStates(k string) int {
	n := 0
	for _, s := range e.States {
		if s == k {
			n++
		}
	}
	return n
}

// playerProps: the properties a wrong player field breaks.
func playerProps(field string, op string, exp, got *pc.CompetitionPlayer, mode pc.CompetitionMode) []string {
	var p []string
	switch field {
	case "Status":
		for _, st := range []pc.CompetitionPlayerStatus{exp.Status, got.Status} {
			switch st {
			case pc.CompetitionPlayerStatus_Knockout:
				p = append(p, "C14")
			case pc.CompetitionPlayerStatus_ReBuyWaiting:
				p = append(p, "C11")
			case pc.CompetitionPlayerStatus_CashLeaving:
				p = append(p, "C28")
			case pc.CompetitionPlayerStatus_WaitingTableBalancing:
				p = append(p, "C24")
				if op == "settled" {
					p = append(p, "C25")
				}
			}
		}
		if mode == pc.CompetitionMode_MTT && op == "settled" && got.Status == pc.CompetitionPlayerStatus_Playing {
			p = append(p, "C25")
		}
	case "Chips":
		p = P("C17")
		if op == "settled" || op == "dup" {
			p = append(p, "C09")
		}
	case "Rank", "TableRank":
		p = P("C09")
	case "CompetitionRank":
		p = P("C16")
	case "IsReBuying", "ReBuyEndAt":
		p = P("C11")
	case "ReBuyWaitingAt":
		p = P("C11", "C16")
	case "ReBuyTimes", "TotalBuyInUnits", "JoinAt":
		p = P("C05")
	case "TotalRedeemChips":
		p = P("C05", "C07")
	case "AddonTimes":
		p = P("C07")
	case "CurrentSeat", "CurrentTableID":
		if mode == pc.CompetitionMode_MTT {
			p = P("C24")
			if op == "settled" {
				p = append(p, "C25")
			}
		} else if op == "settled" {
			p = P("C11", "C14")
		}
	case "KnockoutAt":
		p = P("C14")
	default:
		if strings.HasPrefix(field, "Best") || strings.HasPrefix(field, "Total") {
			p = P("C10")
			if op == "dup" {
				p = append(p, "C09")
			}
		}
	}
	return p
}

// tableJSON is how table contents are compared.
func tableJSON(v interface{}) string { return jsonOf(v) }

func (s *Spec) finish(ev *Ev) {
	e, g := s.c, s.got
	mode := e.Meta.Mode

	// commands nobody asked for
	for i, c := range s.cmds {
		if !s.used[i] {
			pr := cmdProps(c.Kind, s.op, mode)
			if ended(e) {
				pr = append(pr, "C01")
			}
			if breaking(e) && (c.Kind == "SetUpTableGame" || c.Kind == "StartTableGame") {
				pr = append(pr, "C19")
			}
			s.bad(pr, "unexpected command %s", c)
			if c.Err != nil {
				s.cmdErr = true
			}
		}
	}

	// competition level
	if e.State.Status != g.State.Status {
		pr := P("C01")
		for _, st := range []pc.CompetitionStateStatus{e.State.Status, g.State.Status} {
			if st == pc.CompetitionStateStatus_StoppedBuyIn {
				pr = append(pr, "C13")
			}
		}
		if ended(e) || ended(g) {
			pr = append(pr, "C23")
		}
		s.bad(pr, "status is %s, expected %s", g.State.Status, e.State.Status)
	}
	if e.State.OpenAt != g.State.OpenAt || e.State.DisableAt != g.State.DisableAt || e.ID != g.ID {
		s.bad(P("C04"), "identity or open/disable time changed")
	}
	if e.State.StartAt != g.State.StartAt {
		if mode == pc.CompetitionMode_MTT {
			s.bad(P("C03"), "start time is %d, expected %d", g.State.StartAt, e.State.StartAt)
		} else {
			s.bad(P("C02"), "start time is %d, expected %d", g.State.StartAt, e.State.StartAt)
		}
	}
	if e.State.EndAt != g.State.EndAt {
		pr := P("C01")
		if mode == pc.CompetitionMode_CT {
			pr = P("C02", "C23")
		}
		s.bad(pr, "end time is %d, expected %d", g.State.EndAt, e.State.EndAt)
	}
	if eb, gb := e.State.BlindState, g.State.BlindState; !reflect.DeepEqual(eb, gb) {
		pr := P("C20", "C21")
		if eb.FinalBuyInLevelIndex != gb.FinalBuyInLevelIndex {
			pr = append(pr, "C13")
		}
		s.bad(pr, "blind state is %+v, expected %+v", *gb, *eb)
	}
	em, gm := e.Meta, g.Meta
	em.AdvanceSetting.PlayerCount, gm.AdvanceSetting.PlayerCount = 0, 0
	if !reflect.DeepEqual(em, gm) {
		s.bad(P("C04"), "settings changed: %+v, expected %+v", gm, em)
	}
	if x, y := jsonOf(e.State.AdvanceState), jsonOf(g.State.AdvanceState); x != y || e.Meta.AdvanceSetting.PlayerCount != g.Meta.AdvanceSetting.PlayerCount {
		s.bad(P("C26"), "advancement is %s (count %d), expected %s (count %d)", y, g.Meta.AdvanceSetting.PlayerCount, x, e.Meta.AdvanceSetting.PlayerCount)
	}
	// totals
	es, gs := e.State.Statistic, g.State.Statistic
	if es.TotalBuyInCount != gs.TotalBuyInCount {
		s.bad(P("C27"), "total buy-in count is %d, expected %d", gs.TotalBuyInCount, es.TotalBuyInCount)
	}
	if es.TotalAddonCount != gs.TotalAddonCount {
		s.bad(P("C27"), "total add-on count is %d, expected %d", gs.TotalAddonCount, es.TotalAddonCount)
	}
	if a, b, c, d := counts(g); gs.PlayingPlayerCount != a || gs.WaitingTableBalancingPlayerCount != b || gs.KnockoutPlayerCount != c || gs.ReBuyWaitingPlayerCount != d {
		s.bad(P("C27"), "published head counts %+v, players say playing %d waiting %d out %d re-buying %d", *gs, a, b, c, d)
	}

	// tables
	eids, gids := []string{}, []string{}
	em2 := map[string]string{}
	for _, t := range e.State.Tables {
		eids = append(eids, t.ID)
		em2[t.ID] = tableJSON(t)
	}
	for _, t := range g.State.Tables {
		gids = append(gids, t.ID)
		if x, ok := em2[t.ID]; ok {
			if y := tableJSON(t); x != y {
				s.bad(P("C18"), "table %s is published as %s, reported was %s", t.ID, short(y), short(x))
			}
		}
	}
	if !sameSet(eids, gids) {
		pr := P("C18")
		if mode == pc.CompetitionMode_MTT {
			pr = append(pr, "C24")
		}
		s.bad(pr, "tables are %v, expected %v", gids, eids)
	}

	// players
	gotP := map[string]*pc.CompetitionPlayer{}
	for _, p := range g.State.Players {
		if gotP[p.PlayerID] != nil {
			s.bad(P("C05", "C31", "C17"), "player %s is listed twice", p.PlayerID)
		}
		gotP[p.PlayerID] = p
	}
	for _, p := range e.State.Players {
		q := gotP[p.PlayerID]
		if q == nil {
			s.bad(P("C17"), "player %s disappeared (%s, %d chips)", p.PlayerID, p.Status, p.Chips)
			continue
		}
		delete(gotP, p.PlayerID)
		s.diffPlayer(p, q)
	}
	for id, q := range gotP {
		s.bad(P("C17"), "player %s should be gone (%s, %d chips)", id, q.Status, q.Chips)
	}

	// rankings
	if x, y := jsonOf(e.State.Rankings), jsonOf(g.State.Rankings); x != y && !(len(e.State.Rankings) == 0 && len(g.State.Rankings) == 0) {
		pr := P("C14")
		if ended(e) || ended(g) {
			pr = P("C15")
			if ended(s.preC) {
				pr = append(pr, "C01")
			}
		}
		s.bad(pr, "rankings are %s, expected %s", y, x)
	}

	// announcements
	want := map[string]int{}
	for _, r := range s.rank {
		want[fmt.Sprintf("%s#%d", r.ID, r.Rank)]++
	}
	free := map[string]bool{}
	for id := range s.freeIDs {
		free[id] = true
	}
	for _, r := range ev.Ranks {
		k := fmt.Sprintf("%s#%d", r.ID, r.Rank)
		if want[k] > 0 {
			want[k]--
			continue
		}
		if free[r.ID] {
			free[r.ID] = false
			continue
		}
		s.bad(rankProps(e, r.ID), "unexpected final rank announced: %s", k)
	}
	for k, n := range want {
		for ; n > 0; n-- {
			s.bad(rankProps(e, k[:strings.Index(k, "#")]), "final rank not announced: %s", k)
		}
	}
	cw := map[string]int{}
	for _, p := range s.cash {
		cw[fmt.Sprintf("%s:%d", p.PlayerID, p.Chips)]++
	}
	for _, p := range ev.Cash {
		k := fmt.Sprintf("%s:%d", p.PlayerID, p.Chips)
		if cw[k] > 0 {
			cw[k]--
			continue
		}
		s.bad(P("C28", "C17"), "unexpected payout %s", k)
	}
	for k, n := range cw {
		for ; n > 0; n-- {
			s.bad(P("C28", "C17"), "payout missing: %s", k)
		}
	}
	if n := ev.nStates(pc.CompetitionStateEvent_Settled); n != s.settledE {
		s.bad(P("C01"), "%d Settled announcements, expected %d", n, s.settledE)
	}
	if n := ev.nStates(pc.CompetitionStateEvent_Started); n != s.startedE {
		if mode == pc.CompetitionMode_MTT {
			s.bad(P("C03"), "%d Started announcements, expected %d", n, s.startedE)
		} else {
			s.bad(P("C02"), "%d Started announcements, expected %d", n, s.startedE)
		}
	}
	s.checkNotes(ev)
	if fmt.Sprint(ev.Adv) != fmt.Sprint(s.advAsk) {
		s.bad(P("C26"), "advancing player count asked with %v, expected %v", ev.Adv, s.advAsk)
	}
	if n := s.failed(); n > 0 {
		k := len(ev.Errs) + s.rets
		if s.ret != nil {
			k++
		}
		if k < n {
			s.badF(P("C32"), "%d table commands failed, but only %d failures were announced or returned (%s)", n, k, s.firstFailed())
		}
		for _, c := range s.cmds {
			if c.Err != nil {
				s.hit("C32", "failed:%s:%s:injected%v", s.op, c.Kind, errors.Is(c.Err, ErrFakeInjected))
			}
		}
	}
	if len(ev.Errs) > 0 && !s.cmdErr {
		s.bad(P("C41"), "unexpected error event: %v", ev.Errs)
	}
	for _, c := range s.cmds {
		if c.Err == nil {
			continue
		}
		how := "announced"
		if c.tells(s.ret) {
			how = "returned"
		}
		s.hit("C41", "%s:%s:%s", s.op, c.Kind, how)
	}
	for _, c := range untold(s.cmds, ev.Errs, s.ret, s.told) {
		s.badF(P("C41"), "%s failed with %q, and nobody is told (returned %v, announced %v)", c, c.Err, s.ret, ev.Errs)
	}
	if !s.ownErr {
		for _, e := range ev.Errs {
			ok := false
			for _, c := range s.cmds {
				ok = ok || c.tells(e)
			}
			if !ok && s.cmdErr {
				s.badF(P("C41"), "an error is announced that no table reported: %v", e)
			}
		}
	}

	// publication
	if s.needUpd {
		ok := false
		k := pubKey(g)
		for _, u := range ev.Upd {
			if s.op == "settled" || s.multi || pubKey(u) == k {
				ok = true
			}
		}
		if !ok {
			s.badF(P("C36"), "no competition update shows the state after the change (%d updates)", len(ev.Upd))
		}
		s.hit("C36", "upd:%s:%s:%d", s.op, e.State.Status, len(ev.Upd))
	}
	for id := range s.touched {
		q := findP(g, id)
		if q == nil {
			continue
		}
		ok := false
		for _, u := range ev.Players {
			if u.PlayerID == id && u.Status == q.Status && u.Chips == q.Chips && u.CurrentSeat == q.CurrentSeat && u.CurrentTableID == q.CurrentTableID {
				ok = true
			}
		}
		if !ok && !sameVisible(findP(s.preC, id), q) {
			s.badF(P("C36"), "no player update shows %s after the change", id)
		}
		s.hit("C36", "player:%s:%s", s.op, q.Status)
	}
}

func sameVisible(a, b *pc.CompetitionPlayer) bool {
	return a != nil && a.Status == b.Status && a.Chips == b.Chips && a.CurrentSeat == b.CurrentSeat && a.CurrentTableID == b.CurrentTableID
}

func rankProps(e *pc.Competition, id string) []string {
	if p := findP(e, id); p != nil && p.Status != pc.CompetitionPlayerStatus_Knockout && ended(e) {
		return P("C15")
	}
	return P("C14")
}

func pubKey(c *pc.Competition) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%d|%+v|", c.State.Status, c.State.BlindState.CurrentLevelIndex, *c.State.Statistic)
	ps := []string{}
	for _, p := range c.State.Players {
		ps = append(ps, fmt.Sprintf("%s,%s,%d,%d,%s,%v,%d,%d,%d", p.PlayerID, p.Status, p.Chips, p.CurrentSeat, p.CurrentTableID, p.IsReBuying, p.ReBuyTimes, p.AddonTimes, p.TotalBuyInUnits))
	}
	sort.Strings(ps)
	b.WriteString(strings.Join(ps, ";"))
	return b.String()
}

func short(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func (s *Spec) diffPlayer(e, g *pc.CompetitionPlayer) {
	ve, vg := reflect.ValueOf(*e), reflect.ValueOf(*g)
	t := ve.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i).Name
		x, y := ve.Field(i).Interface(), vg.Field(i).Interface()
		if reflect.DeepEqual(x, y) {
			continue
		}
		if f == "BestWinningCombo" && len(e.BestWinningCombo) == 0 && len(g.BestWinningCombo) == 0 {
			continue
		}
		if f == "CompetitionRank" {
			if s.freeRank[e.PlayerID] || !s.rankComparable {
				continue
			}
		}
		pr := playerProps(f, s.op, e, g, s.c.Meta.Mode)
		if f == "CompetitionRank" && ended(s.c) {
			pr = P("C15")
		}
		if f == "CompetitionRank" {
			s.badF(pr, "player %s: %s is %v, expected %v", e.PlayerID, f, y, x)
			continue
		}
		s.bad(pr, "player %s: %s is %v, expected %v", e.PlayerID, f, y, x)
	}
}
