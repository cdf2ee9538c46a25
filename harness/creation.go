package vh

// C04: creations, valid and invalid, directly and through a manager, over working and failing backends.

import (
	"errors"
	"fmt"
	"math/rand"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
)

type recorder struct {
	upd     []*pc.Competition
	errs    []error
	players int
	ranks   int
	states  []string
	cash    int
	adv     int
}

func (r *recorder) options() *pc.CompetitionEngineOptions {
	return &pc.CompetitionEngineOptions{
		OnCompetitionUpdated:                func(c *pc.Competition) { r.upd = append(r.upd, cloneComp(c)) },
		OnCompetitionErrorUpdated:           func(c *pc.Competition, err error) { r.errs = append(r.errs, err) },
		OnCompetitionPlayerUpdated:          func(string, *pc.CompetitionPlayer) { r.players++ },
		OnCompetitionFinalPlayerRankUpdated: func(string, string, int) { r.ranks++ },
		OnCompetitionStateUpdated:           func(e string, c *pc.Competition) { r.states = append(r.states, e) },
		OnAdvancePlayerCountUpdated:         func(string, int) int { r.adv++; return 3 },
		OnCompetitionPlayerCashOut:          func(string, *pc.CompetitionPlayer) { r.cash++ },
	}
}

func (r *recorder) wire(ce pc.CompetitionEngine) {
	o := r.options()
	ce.OnCompetitionUpdated(o.OnCompetitionUpdated)
	ce.OnCompetitionErrorUpdated(o.OnCompetitionErrorUpdated)
	ce.OnCompetitionPlayerUpdated(o.OnCompetitionPlayerUpdated)
	ce.OnCompetitionFinalPlayerRankUpdated(o.OnCompetitionFinalPlayerRankUpdated)
	ce.OnCompetitionStateUpdated(o.OnCompetitionStateUpdated)
	ce.OnAdvancePlayerCountUpdated(o.OnAdvancePlayerCountUpdated)
	ce.OnCompetitionPlayerCashOut(o.OnCompetitionPlayerCashOut)
}

func (r *recorder) total() int {
	return len(r.upd) + len(r.errs) + r.players + r.ranks + len(r.states) + r.cash + r.adv
}

// genTables configures 0-3 tables with given players; over tells one has more players than seats.
func genTables(r *rand.Rand, id string, seats int) (ts []pc.TableSetting, over bool) {
	n := pickI(r, 0, 1, 1, 1, 2, 3)
	pl := 0
	bad := -1
	if n > 0 && r.Intn(6) == 0 {
		bad = r.Intn(n)
	}
	for i := 0; i < n; i++ {
		t := pc.TableSetting{TableID: fmt.Sprintf("%s-t%d", id, r.Intn(1000)*10+i)}
		k := 0
		switch r.Intn(4) {
		case 0:
			k = r.Intn(seats + 1)
		case 1:
			k = seats
		}
		if i == bad {
			k = seats + 1 + r.Intn(2)
			over = true
		}
		for j := 0; j < k; j++ {
			pl++
			t.JoinPlayers = append(t.JoinPlayers, pokertable.JoinPlayer{PlayerID: fmt.Sprintf("g%d", pl), RedeemChips: pickI64(r, 100, 200, 1000), Seat: -1})
		}
		if k > 0 && k <= seats && r.Intn(3) == 0 { // chosen seats
			for j, s := range r.Perm(seats)[:k] {
				t.JoinPlayers[j].Seat = s
			}
		}
		ts = append(ts, t)
	}
	return
}

var errNoTable = errors.New("no table for you")

func createCase(c *Case) string {
	r := c.r
	if d := align(time.Now()).Sub(time.Now()); d > 0 {
		time.Sleep(d)
	}
	be := NewBackend(r)
	viaMgr := r.Intn(3) > 0
	var m pc.Manager
	if viaMgr {
		m = pc.NewManager(be)
	}
	mopts := pokertable.NewTableEngineOptions()
	mopts.GameContinueInterval = 3 + r.Intn(9)
	mopts.OpenGameTimeout = 1 + r.Intn(9)
	n := 1 + r.Intn(3)
	type live struct {
		id  string
		ce  pc.CompetitionEngine
		rec *recorder
		st  string
	}
	var lives []live
	var dead []*recorder
	for k := 0; k < n; k++ {
		mode := []pcMode{ct, mtt, cash}[r.Intn(3)]
		id := fmt.Sprintf("comp%d", k)
		set := genSetting(r, mode, id)
		set.Meta.MaxDuration = pickI(r, 1, 15, 60, 3600)
		set.Meta.TableMinPlayerCount = 1 + r.Intn(4)
		set.Meta.ActionTime = pickI(r, 0, 5, 10, 30)
		set.Meta.MinChipUnit = pickI64(r, 1, 5, 10, 25, 100)
		var over bool
		set.TableSettings, over = genTables(r, id, set.Meta.TableMaxSeatCount)
		now := time.Now().Unix()
		pastStart, pastEnd, edge := false, false, false
		switch r.Intn(10) {
		case 0:
			set.StartAt, pastStart = now-1, true
		case 1:
			set.StartAt, pastStart = now-int64(2+r.Intn(100000)), true
		case 2:
			set.StartAt, pastStart = 0, true
		case 3:
			set.StartAt, edge = now, true
		case 4, 5:
			set.StartAt = now + int64(1+r.Intn(30))
		default:
			set.StartAt = unset
		}
		switch r.Intn(8) {
		case 0:
			set.DisableAt, pastEnd = now-1, true
		case 1:
			set.DisableAt, pastEnd = now-int64(2+r.Intn(100000)), true
		case 2:
			if r.Intn(4) == 0 {
				set.DisableAt, edge = now, true
			}
		case 3:
			set.DisableAt = now + 1
		}
		invalid := over || pastStart || pastEnd
		// the backend may fail for one of the tables
		failAt, seen := -1, 0
		if len(set.TableSettings) > 0 && r.Intn(5) == 0 {
			failAt = r.Intn(len(set.TableSettings))
		}
		be.Fault = func(kind, table string) error {
			if kind != "CreateTable" {
				return nil
			}
			seen++
			if seen-1 == failAt {
				return errNoTable
			}
			return nil
		}
		be.Cmds = nil
		be.Sync = r.Intn(4) == 0 // tables report their creation right away
		rec := &recorder{}
		var ce pc.CompetitionEngine
		var ret *pc.Competition
		var err error
		opts := mopts
		given := set
		given.Meta.Blind.Levels = append([]pc.BlindLevel(nil), set.Meta.Blind.Levels...)
		given.Meta.AddonSetting.RedeemChips = append([]int64(nil), set.Meta.AddonSetting.RedeemChips...)
		c.log("%s create (manager %v, table %d fails, reports at once %v) %s", time.Now().UTC().Format("15:04:05.000"), viaMgr, failAt, be.Sync, jsonOf(set))
		if viaMgr {
			if r.Intn(2) == 0 {
				m.SetTableEngineOptions(mopts)
				c.ok(m.GetTableEngineOptions() == mopts, "the manager does not return the table options it was given")
			}
			opts = m.GetTableEngineOptions()
			ret, err = m.CreateCompetition(given, rec.options())
		} else {
			ce = pc.NewCompetitionEngine(pc.WithTableManagerBackend(be), pc.WithTableOptions(mopts))
			rec.wire(ce)
			ret, err = ce.CreateCompetition(given)
		}
		c.steps++
		c.events += rec.total()
		c.cmds += len(be.Cmds)
		progress.Add(1)
		tableMode := mode == ct || mode == cash
		tableFails := tableMode && failAt >= 0
		c.log("   -> %v, table commands %v", err, be.Cmds)
		if viaMgr {
			e, ferr := m.GetCompetitionEngine(id)
			if err == nil {
				if c.ok(ferr == nil && e != nil, "a created competition cannot be found: %v", ferr) {
					ce = e
				}
			} else {
				c.ok(ferr == pc.ErrManagerCompetitionNotFound && e == nil, "a rejected competition can be found (lookup error %v)", ferr)
				c.ok(m.PlayerBuyIn(id, pc.JoinPlayer{PlayerID: "p", RedeemChips: 10, Unit: 1}) == pc.ErrManagerCompetitionNotFound, "a rejected competition takes a buy-in")
			}
		}
		desc := fmt.Sprintf("%s:mgr%v:tables%d", mode, viaMgr, len(set.TableSettings))
		switch {
		case invalid && !(edge && !over && !pastStart && !pastEnd):
			what := ""
			if pastStart {
				what += "pastStart"
			}
			if pastEnd {
				what += "pastEnd"
			}
			if over {
				what += "overfull"
			}
			c.ok(err != nil, "an invalid competition (%s) was created", what)
			c.ok(err == nil || errors.Is(err, pc.ErrCompetitionInvalidCreateSetting), "an invalid competition (%s) was rejected with %v", what, err)
			c.ok(ret == nil || err == nil, "a rejected creation returned a competition")
			c.ok(len(be.Cmds) == 0, "an invalid competition (%s) requested tables: %v", what, be.Cmds)
			c.ok(rec.total() == 0, "an invalid competition (%s) was announced", what)
			c.hit("rejected:" + what + ":" + desc)
			dead = append(dead, rec)
		case tableFails:
			c.ok(err != nil, "a competition whose table could not be created was created")
			c.ok(err == nil || errors.Is(err, errNoTable), "the table's error was reported as %v", err)
			c.ok(len(be.Cmds) == failAt+1, "%d tables were requested although number %d failed", len(be.Cmds), failAt+1)
			c.hit(fmt.Sprintf("tablefails%d:%s", failAt, desc))
			if err != nil {
				rec.upd, rec.states, rec.errs, rec.players, rec.ranks = nil, nil, nil, 0, 0
				dead = append(dead, rec)
			}
		case edge:
			if err == nil && ce != nil {
				lives = append(lives, live{id, ce, rec, ""})
			}
			c.hit("sameSecond:" + desc)
		default:
			if !c.ok(err == nil && ret != nil, "creating a valid competition failed: %v", err) {
				return string(mode)
			}
			lives = append(lives, live{id, ce, rec, ""})
			exp := createdState(set, now)
			c.checkCreated(exp, set, be.Cmds, opts, tableMode)
			for name, got := range map[string]*pc.Competition{"returned": ret, "published": last(rec.upd), "current": ce.GetCompetition()} {
				if !c.ok(got != nil, "no competition was %s", name) {
					continue
				}
				g := cloneComp(got)
				c.checkState(name, exp, g, set, be.Cmds, tableMode)
			}
			c.ok(len(rec.errs) == 0, "creation announced an error: %v", rec.errs)
			c.ok(rec.players == 0 && rec.ranks == 0 && rec.cash == 0, "creation announced players, ranks or pay-outs")
			c.hit("created:" + desc + fmt.Sprintf(":start%v", set.StartAt > 0))
		}
		be.Fault = nil
	}
	// nothing ever comes of a rejected competition
	be.Cmds = nil
	be.Sync = false
	for i := 0; i < 3; i++ {
		time.Sleep(time.Duration(1+r.Intn(15)) * time.Second)
		for _, d := range dead {
			c.ok(d.total() == 0, "a competition that was not created announces something: %v %v %v", d.states, d.errs, len(d.upd))
		}
	}
	for i, l := range lives {
		// the competition works: it is found, and takes its own requests
		if m != nil && r.Intn(2) == 0 {
			m.CloseCompetition(l.id, pc.CompetitionStateStatus_ForceEnd)
		} else {
			l.ce.CloseCompetition(pc.CompetitionStateStatus_ForceEnd)
		}
		lives[i] = l
		if l.ce.GetCompetition() != nil && l.ce.GetCompetition().State.Status == pc.CompetitionStateStatus_ForceEnd {
			c.ok(countOf(l.rec.states, pc.CompetitionStateEvent_Settled) == 1, "the closing of a created competition was announced %d times", countOf(l.rec.states, pc.CompetitionStateEvent_Settled))
		}
	}
	time.Sleep(5 * time.Second)
	return "creation"
}

func countOf(a []string, x string) int {
	n := 0
	for _, s := range a {
		if s == x {
			n++
		}
	}
	return n
}

func last(a []*pc.Competition) *pc.Competition {
	if len(a) == 0 {
		return nil
	}
	return a[len(a)-1]
}

// checkCreated compares the tables requested with the tables configured.
func (c *Case) checkCreated(exp *pc.Competition, set pc.CompetitionSetting, cmds []*Cmd, opts *pokertable.TableEngineOptions, tableMode bool) {
	want := set.TableSettings
	if !tableMode {
		want = nil
	}
	if !c.ok(len(cmds) == len(want), "%d table commands for %d configured tables", len(cmds), len(want)) {
		return
	}
	used := map[int]bool{}
	for _, ts := range want {
		var cmd *Cmd
		for i, x := range cmds {
			if !used[i] && x.Kind == "CreateTable" && x.Table == ts.TableID {
				used[i], cmd = true, x
				break
			}
		}
		if !c.ok(cmd != nil, "table %s was not requested", ts.TableID) {
			continue
		}
		c.ok(cmd.Setting.Meta == tableMeta(exp), "table requested with %+v, expected %+v", cmd.Setting.Meta, tableMeta(exp))
		c.ok(jsonOf(append([]pokertable.JoinPlayer{}, cmd.Setting.JoinPlayers...)) == jsonOf(append([]pokertable.JoinPlayer{}, ts.JoinPlayers...)), "table requested with players %v, expected %v", cmd.Setting.JoinPlayers, ts.JoinPlayers)
		c.ok(cmd.Setting.Blind.Level == 0, "table requested with blinds %+v before the start", cmd.Setting.Blind)
		c.ok(cmd.Setting.Blind.SB <= 0 && cmd.Setting.Blind.BB <= 0 && cmd.Setting.Blind.Ante <= 0 && cmd.Setting.Blind.Dealer <= 0, "table requested with blinds %+v before the start", cmd.Setting.Blind)
		c.ok(cmd.Opts == opts, "table requested with other table options")
	}
}

func (c *Case) checkState(name string, exp, g *pc.Competition, set pc.CompetitionSetting, cmds []*Cmd, tableMode bool) {
	c.ok(g.ID == exp.ID, "the %s competition's id is %q", name, g.ID)
	c.ok(jsonOf(g.Meta) == jsonOf(exp.Meta), "the %s competition's settings are %s, given %s", name, jsonOf(g.Meta), jsonOf(exp.Meta))
	if !c.ok(g.State != nil, "the %s competition has no state", name) {
		return
	}
	a, b := *g.State, *exp.State
	c.ok(a.OpenAt == b.OpenAt && a.DisableAt == b.DisableAt && a.StartAt == b.StartAt && a.EndAt == b.EndAt, "the %s competition's times are open %d disable %d start %d end %d, expected %d %d %d %d",
		name, a.OpenAt, a.DisableAt, a.StartAt, a.EndAt, b.OpenAt, b.DisableAt, b.StartAt, b.EndAt)
	c.ok(a.Status == b.Status, "the %s competition is %s", name, a.Status)
	c.ok(len(a.Players) == 0 && len(a.Rankings) == 0, "the %s competition has %d players and %d rankings", name, len(a.Players), len(a.Rankings))
	c.ok(jsonOf(a.Statistic) == jsonOf(b.Statistic), "the %s competition's statistics are %s", name, jsonOf(a.Statistic))
	c.ok(jsonOf(a.BlindState) == jsonOf(b.BlindState), "the %s competition's blinds are %s, expected %s", name, jsonOf(a.BlindState), jsonOf(b.BlindState))
	c.ok(jsonOf(a.AdvanceState) == jsonOf(b.AdvanceState), "the %s competition's advancement is %s", name, jsonOf(a.AdvanceState))
	var ids, want []string
	for _, t := range a.Tables {
		ids = append(ids, t.ID)
	}
	if tableMode {
		for _, t := range set.TableSettings {
			want = append(want, t.TableID)
		}
	}
	c.ok(sameSet(ids, want), "the %s competition has tables %v, configured %v", name, ids, want)
}

func init() {
	workloads["C04"] = caseWorkload(createCase)
}
