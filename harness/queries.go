package vh

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
)

func init() { workloads["C40"] = caseWorkload(queryCase) }

var queryStatuses = []pc.CompetitionPlayerStatus{pc.CompetitionPlayerStatus_WaitingTableBalancing, pc.CompetitionPlayerStatus_Playing,
	pc.CompetitionPlayerStatus_ReBuyWaiting, pc.CompetitionPlayerStatus_Knockout, pc.CompetitionPlayerStatus_CashLeaving}

// anyCompetition makes a competition with arbitrary contents that a competition can have.
func anyCompetition(c *Case) *pc.Competition {
	r := c.r
	x := &pc.Competition{}
	fill(r, reflect.ValueOf(x).Elem(), 7)
	if x.State == nil {
		x.State = &pc.CompetitionState{}
	}
	if x.State.BlindState == nil {
		x.State.BlindState = &pc.BlindState{}
	}
	x.Meta.Mode = []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_MTT, pc.CompetitionMode_Cash}[r.Intn(3)]
	n := 1 + r.Intn(5)
	x.Meta.Blind.Levels = nil
	for i := 0; i < n; i++ {
		var l pc.BlindLevel
		fill(r, reflect.ValueOf(&l).Elem(), 3)
		l.Level = i + 1
		if r.Intn(3) == 0 {
			l.Level = -1
		}
		x.Meta.Blind.Levels = append(x.Meta.Blind.Levels, l)
	}
	x.Meta.Blind.DealerBlindTime = pickI(r, 0, 0, 1, 2, 3)
	x.State.BlindState.CurrentLevelIndex = r.Intn(n+1) - 1
	x.State.BlindState.FinalBuyInLevelIndex = r.Intn(n+3) - 2
	x.State.Players = nil
	for _, i := range r.Perm(12)[:r.Intn(13)] {
		var p pc.CompetitionPlayer
		fill(r, reflect.ValueOf(&p).Elem(), 3)
		p.PlayerID = fmt.Sprintf("p%d", i)
		p.Status = queryStatuses[r.Intn(len(queryStatuses))]
		p.Chips = pickI64(r, 0, 0, 1, 100, 12345)
		x.State.Players = append(x.State.Players, &p)
	}
	x.State.Tables = nil
	for _, i := range r.Perm(5)[:r.Intn(6)] {
		t := anyTable(r)
		t.ID = fmt.Sprintf("t%d", i)
		x.State.Tables = append(x.State.Tables, t)
	}
	return x
}

// documentedKeys are the JSON names of the fields a client of the competition's JSON relies on.
var documentedKeys = []string{"update_serial", "id", "meta", "state", "update_at",
	"meta.blind", "meta.blind.id", "meta.blind.initial_level", "meta.blind.final_buy_in_level_idx", "meta.blind.dealer_blind_time", "meta.blind.levels",
	"meta.max_duration", "meta.min_player_count", "meta.max_player_count", "meta.table_max_seat_count", "meta.table_min_player_count",
	"meta.regulator_min_initial_player_count", "meta.rule", "meta.mode", "meta.re_buy_setting.max_time", "meta.re_buy_setting.waiting_time",
	"meta.addon_setting.is_break_only", "meta.addon_setting.redeem_chips", "meta.addon_setting.max_time", "meta.advance_setting.rule",
	"meta.advance_setting.player_count", "meta.advance_setting.blind_level", "meta.action_time", "meta.min_chip_unit",
	"state.open_at", "state.disable_at", "state.start_at", "state.end_at", "state.blind_state.final_buy_in_level_idx",
	"state.blind_state.current_level_index", "state.blind_state.end_ats", "state.players", "state.status", "state.tables", "state.rankings",
	"state.statistic.total_buy_in_count", "state.statistic.total_addon_count", "state.statistic.playing_player_count", "state.statistic.waiting_table_balancing_player_count", "state.statistic.knockout_player_count", "state.statistic.re_buy_waiting_player_count",
	"state.advance_state.status", "state.advance_state.total_tables", "state.advance_state.updated_tables", "state.advance_state.updated_table_ids"}

// and those of its players, ranks and blind levels
var playerKeys = []string{"player_id", "table_id", "seat", "join_at", "rebuy_waiting_at", "knockout_at", "status", "rank", "table_rank", "competition_rank", "chips", "is_re_buying", "re_buy_end_at", "re_buy_times", "addon_times", "total_buy_in_units", "best_winning_pot_chips", "best_winning_combo", "best_winning_type", "best_winning_power", "total_redeem_chips", "total_game_counts", "total_walk_times", "total_fold_times", "total_preflop_fold_times", "total_flop_fold_times", "total_turn_fold_times", "total_river_fold_times", "total_action_times", "total_raise_times", "total_call_times", "total_check_times", "total_profit_times", "total_vpip_chances", "total_vpip_times", "total_pfr_chances", "total_pfr_times", "total_ats_chances", "total_ats_times", "total_3b_chances", "total_3b_times", "total_ft3b_chances", "total_ft3b_times", "total_check_raise_chances", "total_check_raise_times", "total_c_bet_chances", "total_c_bet_times", "total_ftcb_chances", "total_ftcb_times", "total_showdown_winning_chances", "total_showdown_winning_times"}
var rankKeys = []string{"player_id", "final_chips"}
var levelKeys = []string{"level", "sb", "bb", "ante", "duration", "allow_addon"}

// queryCase asks one competition every question and compares the answers with its contents.
func queryCase(c *Case) string {
	r := c.r
	defer func() {
		if p := recover(); p != nil {
			c.fail("panic: %v", p)
		}
	}()
	x := anyCompetition(c)
	before := js(x)
	st := x.State
	c.log("%s", before)
	ask := func(name string, got, want any) {
		c.steps++
		if !reflect.DeepEqual(got, want) {
			c.fail("%s: %v, expected %v", name, got, want)
		}
		c.hit(fmt.Sprintf("%s=%.30v", name, want))
	}
	for n := 0; n < 3; n++ {
		playing := 0
		by := map[pc.CompetitionPlayerStatus]int{}
		idx := map[string]int{}
		for i, p := range st.Players {
			if p.Chips > 0 {
				playing++
			}
			by[p.Status]++
			idx[p.PlayerID] = i
		}
		ask("players with chips", x.PlayingPlayerCount(), playing)
		for _, s := range queryStatuses {
			ask("players "+string(s), x.GetPlayerCountByStatus(s), by[s])
		}
		m := x.GetPlayerIndexMap()
		c.ok(len(m) == len(idx), "%d players indexed, expected %d", len(m), len(idx))
		for id, i := range idx {
			ask("index", m[id], i)
		}
		for i := 0; i < 13; i++ {
			id := fmt.Sprintf("p%d", i)
			want := -1
			if k, ok := idx[id]; ok {
				want = k
			}
			ask("find player", x.FindPlayerIdx(func(p *pc.CompetitionPlayer) bool { return p.PlayerID == id }), want)
		}
		for _, s := range queryStatuses { // several players match: the first one
			want := -1
			for i, p := range st.Players {
				if p.Status == s {
					want = i
					break
				}
			}
			ask("find first player", x.FindPlayerIdx(func(p *pc.CompetitionPlayer) bool { return p.Status == s }), want)
		}
		for i := 0; i < 6; i++ {
			id := fmt.Sprintf("t%d", i)
			want := -1
			for k, t := range st.Tables {
				if t.ID == id {
					want = k
				}
			}
			ask("find table", x.FindTableIdx(func(t *pokertable.Table) bool { return t.ID == id }), want)
			ask("table exists", x.IsTableExist(id), want >= 0)
		}
		var bl pc.BlindLevel
		if i := st.BlindState.CurrentLevelIndex; i >= 0 {
			bl = x.Meta.Blind.Levels[i]
		}
		ask("blind level", x.CurrentBlindLevel(), bl)
		ask("breaking", x.IsBreaking(), bl.Level == -1)
		lv, ante, dealer, sb, bb := x.CurrentBlindData()
		d := int64(0)
		if k := x.Meta.Blind.DealerBlindTime; k > 0 {
			d = bl.Ante * int64(k-1)
		}
		ask("blind data", []int64{int64(lv), ante, dealer, sb, bb}, []int64{int64(bl.Level), bl.Ante, d, bl.SB, bl.BB})
		f := st.BlindState.FinalBuyInLevelIndex
		ask("buy-ins stopped", st.BlindState.IsStopBuyIn(), f == -1 || (f >= 0 && st.BlindState.CurrentLevelIndex > f))
		ask("ct or mtt", x.IsModeCTorMTT(), x.Meta.Mode != pc.CompetitionMode_Cash)
		c.ok(js(x) == before, "asking changed the competition")

		// its JSON carries everything
		text, err := x.GetJSON()
		c.ok(err == nil, "JSON: %v", err)
		var y pc.Competition
		if err := json.Unmarshal([]byte(text), &y); err != nil {
			c.fail("its JSON cannot be read back: %v", err)
		}
		if d := sameButEmpty(reflect.ValueOf(*x), reflect.ValueOf(y), ""); d != "" {
			c.fail("its JSON loses or changes %s", d)
		}
		var raw map[string]any
		json.Unmarshal([]byte(text), &raw)
		for _, k := range documentedKeys {
			c.ok(hasKey(raw, k), "its JSON has no %q", k)
		}
		for at, keys := range map[string][]string{"state.players": playerKeys, "state.rankings": rankKeys, "meta.blind.levels": levelKeys} {
			var v any = raw
			for _, k := range strings.Split(at, ".") {
				m, _ := v.(map[string]any)
				v = m[k]
			}
			l, _ := v.([]any)
			for _, e := range l {
				m, _ := e.(map[string]any)
				for _, k := range keys {
					_, has := m[k]
					c.ok(has || m == nil, "its JSON has no %q in %s", k, at)
				}
			}
		}
		if n == 1 { // change something and ask again
			if len(st.Players) > 0 {
				p := st.Players[r.Intn(len(st.Players))]
				p.Chips = pickI64(r, 0, 7)
				p.Status = queryStatuses[r.Intn(len(queryStatuses))]
			}
			if len(st.Tables) > 0 && r.Intn(2) == 0 {
				st.Tables = st.Tables[1:]
			}
			st.BlindState.CurrentLevelIndex = r.Intn(len(x.Meta.Blind.Levels)+1) - 1
			before = js(x)
		}
	}
	// what a table is created from
	var ts pc.TableSetting
	fill(r, reflect.ValueOf(&ts).Elem(), 4)
	var b pokertable.TableBlindState
	fill(r, reflect.ValueOf(&b).Elem(), 2)
	g := pc.NewPokerTableSetting(x.ID, x.Meta, ts, b)
	m := x.Meta
	w := pokertable.TableMeta{CompetitionID: x.ID, Rule: string(m.Rule), Mode: string(m.Mode), MaxDuration: m.MaxDuration, TableMaxSeatCount: m.TableMaxSeatCount,
		TableMinPlayerCount: m.TableMinPlayerCount, MinChipUnit: m.MinChipUnit, ActionTime: m.ActionTime}
	c.ok(g.Meta == w, "a table gets %+v, expected %+v", g.Meta, w)
	c.ok(g.TableID == ts.TableID && g.Blind == b && reflect.DeepEqual(g.JoinPlayers, ts.JoinPlayers), "a table gets other players or blinds than set")
	// the player's view hides the tables and nothing else
	st.Tables = nil
	want := js(x)
	json.Unmarshal([]byte(before), x)
	x.AsPlayer()
	c.ok(js(x) == want, "a player sees the tables or something is missing")
	c.events++
	return "queries"
}

func hasKey(m map[string]any, path string) bool {
	for i := 0; i < len(path); i++ {
		if path[i] == '.' {
			v, ok := m[path[:i]]
			if !ok || v == nil {
				return ok // nothing there to look into
			}
			s, ok := v.(map[string]any)
			return ok && hasKey(s, path[i+1:])
		}
	}
	_, ok := m[path]
	return ok
}

// sameButEmpty compares deeply, except that nil and empty slices and maps are the same.
func sameButEmpty(a, b reflect.Value, at string) string {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return at
		}
		if !a.IsNil() {
			return sameButEmpty(a.Elem(), b.Elem(), at)
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" || (f.Tag.Get("json") == "-" && a.Type().PkgPath() != reflect.TypeOf(pc.Competition{}).PkgPath()) {
				continue
			}
			if d := sameButEmpty(a.Field(i), b.Field(i), at+"."+f.Name); d != "" {
				return d
			}
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			return at
		}
		for i := 0; i < a.Len(); i++ {
			if d := sameButEmpty(a.Index(i), b.Index(i), at); d != "" {
				return d
			}
		}
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) && !(a.Kind() == reflect.Map && a.Len()+b.Len() == 0) {
			return at
		}
	}
	return ""
}
