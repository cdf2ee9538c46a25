package vh

// Workload generation: competitions with random settings, driven by random but
// realistic histories of requests, table reports and time.

import (
	"fmt"
	"math/rand"
	"sync/atomic"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
)

var progress atomic.Int64

type Profile struct {
	Modes    []pc.CompetitionMode
	W        map[string]int // action weights
	Cfg      func(r *rand.Rand, s *pc.CompetitionSetting)
	Steps    int
	NoLedger bool
	Lag      float64 // probability that plain table updates are delivered late
	Bust     float64
	Late     int // actions after the end (default 8)

	Pool  int   // number of people around (default 12, MTT 26)
	Need  int   // registrations to wait for
	Scale int64 // factor of all chips bought
	ID    func(i int) string
}

const (
	ct   = pc.CompetitionMode_CT
	mtt  = pc.CompetitionMode_MTT
	cash = pc.CompetitionMode_Cash
)

func pickS(r *rand.Rand, a ...string) string { return a[r.Intn(len(a))] }
func pickI(r *rand.Rand, a ...int) int       { return a[r.Intn(len(a))] }
func pickI64(r *rand.Rand, a ...int64) int64 { return a[r.Intn(len(a))] }

func genLevels(r *rand.Rand, n int, breaks float64) []pc.BlindLevel {
	var out []pc.BlindLevel
	lv := 0
	sb := int64(5)
	for i := 0; i < n; i++ {
		l := pc.BlindLevel{Duration: pickI(r, 3, 5, 8, 12, 20, 30), AllowAddon: r.Intn(2) == 0}
		if i > 0 && r.Float64() < breaks {
			l.Level = -1
			l.AllowAddon = r.Intn(4) != 0
		} else {
			lv++
			l.Level = lv
			l.SB, l.BB = sb, 2*sb
			if r.Intn(2) == 0 {
				l.Ante = 1 + r.Int63n(sb)
			}
			sb += 5
		}
		out = append(out, l)
	}
	if r.Intn(3) == 0 && out[n-1].Level > 0 {
		out[n-1].Duration = -1
	}
	return out
}

// genSetting draws a competition. Times are relative to now.
func genSetting(r *rand.Rand, mode pc.CompetitionMode, id string) pc.CompetitionSetting {
	n := 2 + r.Intn(6)
	if r.Intn(16) == 0 {
		n = 1
	}
	ls := genLevels(r, n, 0.3)
	m := pc.CompetitionMeta{
		Blind:               pc.Blind{ID: "b-" + id, InitialLevel: 1, FinalBuyInLevelIndex: r.Intn(n), DealerBlindTime: pickI(r, 0, 1, 2, 3), Levels: ls},
		MaxDuration:         pickI(r, 15, 30, 60, 120, 300),
		MinPlayerCount:      2 + r.Intn(3),
		TableMinPlayerCount: 2,
		Rule:                []pc.CompetitionRule{pc.CompetitionRule_Default, pc.CompetitionRule_ShortDeck, pc.CompetitionRule_Omaha}[r.Intn(3)],
		Mode:                mode,
		ReBuySetting:        pc.ReBuySetting{MaxTime: r.Intn(4), WaitingTime: pickI(r, 0, 1, 3, 5, 5, 10, 10, 20)},
		AddonSetting:        pc.AddonSetting{IsBreakOnly: r.Intn(2) == 0, RedeemChips: []int64{100, 200}, MaxTime: r.Intn(3)},
		ActionTime:          10,
		MinChipUnit:         pickI64(r, 1, 5, 10),
	}
	switch r.Intn(6) {
	case 0:
		m.Blind.FinalBuyInLevelIndex = unset
	case 1:
		m.Blind.FinalBuyInLevelIndex = pc.NoStopBuyInIndex
	case 2:
		m.Blind.FinalBuyInLevelIndex = 0
	}
	if r.Intn(5) == 0 { // start at a later level
		k := r.Intn(n)
		if ls[k].Level > 0 {
			m.Blind.InitialLevel = ls[k].Level
		}
	}
	now := time.Now().Unix()
	s := pc.CompetitionSetting{CompetitionID: id, StartAt: unset, DisableAt: now + int64(pickI(r, 20, 40, 100, 300))}
	switch mode {
	case ct:
		m.TableMaxSeatCount = 2 + r.Intn(8)
		m.MaxPlayerCount = m.TableMaxSeatCount
		if m.MinPlayerCount > m.TableMaxSeatCount {
			m.MinPlayerCount = m.TableMaxSeatCount
		}
		s.TableSettings = []pc.TableSetting{{TableID: id + "-t1"}}
		if r.Intn(3) == 0 {
			s.StartAt = now + int64(pickI(r, 3, 8, 15, 25))
		}
		if r.Intn(4) == 0 && m.TableMaxSeatCount >= 3 {
			m.TableMinPlayerCount = 3
		}
	case cash:
		m.TableMaxSeatCount = 3 + r.Intn(7)
		m.MaxPlayerCount = m.TableMaxSeatCount
		if m.MinPlayerCount > m.TableMaxSeatCount {
			m.MinPlayerCount = m.TableMaxSeatCount
		}
		m.Blind.FinalBuyInLevelIndex = pc.NoStopBuyInIndex
		m.ReBuySetting.MaxTime = 10000
		s.TableSettings = []pc.TableSetting{{TableID: id + "-t1"}}
	case mtt:
		m.TableMaxSeatCount = pickI(r, 3, 3, 4, 5, 6, 9)
		// above two thirds the regulator library may ask for overfull tables (known finding)
		m.RegulatorMinInitialPlayerCount = 2 + r.Intn((2*m.TableMaxSeatCount+1)/3-1)
		m.MaxPlayerCount = 100
		m.MinPlayerCount = 2 + r.Intn(5)
		if r.Intn(3) == 0 {
			s.StartAt = now + int64(pickI(r, 3, 8, 15, 25))
		}
		switch r.Intn(4) {
		case 0:
			m.AdvanceSetting = pc.AdvanceSetting{Rule: pc.CompetitionAdvanceRule_PlayerCount}
		case 1:
			m.AdvanceSetting = pc.AdvanceSetting{Rule: pc.CompetitionAdvanceRule_BlindLevel, BlindLevel: 1 + r.Intn(n)}
		}
		if r.Intn(2) == 0 { // a deep field with long levels
			for i := range ls {
				ls[i].Duration = pickI(r, 10, 20, 40)
			}
			ls[n-1].Duration = -1
			if ls[n-1].Level < 0 {
				ls[n-1].Duration = 500
			}
		}
	}
	if mode != ct && r.Intn(6) == 0 && m.TableMaxSeatCount > 3 {
		m.TableMinPlayerCount = 3
	}
	if m.Mode != mtt && r.Intn(5) == 0 { // means nothing outside MTTs
		m.AdvanceSetting = pc.AdvanceSetting{Rule: pc.CompetitionAdvanceRule_PlayerCount, PlayerCount: 2}
		if r.Intn(2) == 0 {
			m.AdvanceSetting = pc.AdvanceSetting{Rule: pc.CompetitionAdvanceRule_BlindLevel, BlindLevel: 1}
		}
	}
	s.Meta = m
	return s
}

func newWorld(r *rand.Rand, prof *Profile, set pc.CompetitionSetting) *World {
	w := &World{rng: r, prof: prof, set: set, hits: map[string]int{}, reports: map[string]*pokertable.Table{}, pauseFor: map[string]time.Time{}}
	w.be = NewBackend(r)
	w.opts = pokertable.NewTableEngineOptions()
	w.ce = pc.NewCompetitionEngine(pc.WithTableManagerBackend(w.be), pc.WithTableOptions(w.opts))
	w.sh = &Shadow{Settled: map[string]bool{}, Break: map[string]bool{}, InitLevel: set.Meta.Blind.InitialLevel, AdvAnswer: 1 + r.Intn(8), Ranked: map[string]int{}}
	w.mtt = set.Meta.Mode == mtt
	w.hook()
	n := 12
	if w.mtt {
		n = 26
	}
	n = max(n, prof.Pool)
	for i := 0; i < n; i++ {
		if prof.ID != nil {
			w.pool = append(w.pool, prof.ID(i))
		} else {
			w.pool = append(w.pool, fmt.Sprintf("p%d", i))
		}
	}
	return w
}

// created is the state a fresh competition must be published with.
func createdState(set pc.CompetitionSetting, now int64) *pc.Competition {
	c := &pc.Competition{ID: set.CompetitionID, Meta: set.Meta, State: &pc.CompetitionState{
		OpenAt: now, DisableAt: set.DisableAt, StartAt: set.StartAt, EndAt: unset, Players: []*pc.CompetitionPlayer{},
		Status: pc.CompetitionStateStatus_Registering, Rankings: []*pc.CompetitionRank{},
		BlindState:   &pc.BlindState{FinalBuyInLevelIndex: set.Meta.Blind.FinalBuyInLevelIndex, CurrentLevelIndex: unset, EndAts: make([]int64, len(set.Meta.Blind.Levels))},
		AdvanceState: &pc.AdvanceState{Status: pc.CompetitionAdvanceStatus_NotStart, TotalTables: unset, UpdatedTables: unset},
		Statistic:    &pc.Statistic{},
	}}
	return cloneComp(c)
}

// create creates the competition and checks what came of it.
func (w *World) create() bool {
	set := w.set
	sc := set
	sc.Meta.Blind.Levels = append([]pc.BlindLevel(nil), set.Meta.Blind.Levels...)
	base := createdState(set, time.Now().Unix())
	w.cur = base
	var ret *pc.Competition
	var err error
	ok := true
	w.log("create %s", jsonOf(set))
	created := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.flag(P("C04"), "creation panicked: %v", r)
				ok = false
			}
		}()
		w.be.Cmds = nil
		w.ev = &Ev{}
		ret, err = w.ce.CreateCompetition(sc)
		created = true
	}()
	if !ok {
		return false
	}
	if !created || err != nil || ret == nil {
		w.flag(P("C04"), "creation of a valid competition failed: %v", err)
		return false
	}
	cmds := w.be.Cmds
	w.step("create", P("C04"), "", nil, func(s *Spec) {
		s.cmds, s.used = cmds, make([]bool, len(cmds))
		for _, ts := range set.TableSettings {
			var cmd *Cmd
			for i, c := range s.cmds {
				if !s.used[i] && c.Kind == "CreateTable" && c.Table == ts.TableID {
					s.used[i], cmd = true, c
					break
				}
			}
			if cmd == nil {
				s.bad(P("C04"), "table %s was not created", ts.TableID)
				continue
			}
			if cmd.Setting.Meta != tableMeta(s.c) {
				s.bad(P("C04"), "table created with meta %+v, expected %+v", cmd.Setting.Meta, tableMeta(s.c))
			}
			if !sameSet(joinKey(cmd.Setting.JoinPlayers), joinKey(ts.JoinPlayers)) {
				s.bad(P("C04"), "table created with players %v, expected %v", cmd.Setting.JoinPlayers, ts.JoinPlayers)
			}
			if cmd.Setting.Blind != (pokertable.TableBlindState{Level: 0, Ante: -1, Dealer: -1, SB: -1, BB: -1}) {
				s.bad(P("C04", "C20"), "table created with blinds %+v before the start", cmd.Setting.Blind)
			}
			if cmd.Opts != w.opts {
				s.bad(P("C04"), "table created with other options")
			}
			s.c.State.Tables = append(s.c.State.Tables, cmd.Created)
		}
		s.needUpd = true
		s.hit("C04", "created:tables%d:start%v:players%v", len(set.TableSettings), set.StartAt > 0, len(set.TableSettings) > 0 && len(set.TableSettings[0].JoinPlayers) > 0)
	})
	if set.Meta.Mode == mtt {
		w.sh.Reg = NewReg(set.Meta.TableMaxSeatCount, set.Meta.RegulatorMinInitialPlayerCount)
	}
	if set.StartAt > 0 {
		w.sh.add(&Timer{At: time.Unix(set.StartAt, 0), Kind: "startAt"})
	}
	w.sh.add(&Timer{At: time.Unix(set.DisableAt, 0), Kind: "disable"})
	return len(w.bad) == 0
}

// ---- actions

func (w *World) tables() []*FakeTable {
	var out []*FakeTable
	for _, id := range w.be.Order {
		ft := w.be.Tables[id]
		if !ft.Closed && !ft.Released {
			out = append(out, ft)
		}
	}
	return out
}

func (w *World) anyTableID() string {
	if len(w.be.Order) == 0 || w.rng.Intn(10) == 0 {
		return "nowhere"
	}
	return w.be.Order[w.rng.Intn(len(w.be.Order))]
}

func (w *World) randPlayer() string { return w.pool[w.rng.Intn(len(w.pool))] }

func (w *World) newPlayer() string {
	for _, k := range w.rng.Perm(len(w.pool)) {
		if findP(w.cur, w.pool[k]) == nil {
			return w.pool[k]
		}
	}
	return ""
}

func (w *World) chips() int64 {
	if w.rng.Intn(20) == 0 {
		return 1 + int64(w.rng.Intn(2))
	}
	return pickI64(w.rng, 100, 100, 150, 200, 500) * max(1, w.prof.Scale)
}

func (w *World) opBuyIn(id string, chips int64, unit int) {
	p := findP(w.cur, id)
	props := P("C05", "C06")
	op := "buyin"
	if p != nil {
		op = "rebuy"
		props = append(props, "C11")
	}
	if ended(w.cur) {
		props = P("C01", "C06")
	}
	var err error
	j := pc.JoinPlayer{PlayerID: id, RedeemChips: chips, Unit: unit}
	w.step(op, props, fmt.Sprintf("%s %d unit %d", id, chips, unit), func() { err = w.ce.PlayerBuyIn(j); w.ret = err }, func(s *Spec) { s.buyIn(j, err) })
}

func (w *World) opAddon(tid, id string, chips int64, unit int) {
	props := P("C07")
	if ended(w.cur) {
		props = P("C01", "C07")
	}
	var err error
	j := pc.JoinPlayer{PlayerID: id, RedeemChips: chips, Unit: unit}
	w.step("addon", props, fmt.Sprintf("%s at %s %d", id, tid, chips), func() { err = w.ce.PlayerAddon(tid, j); w.ret = err }, func(s *Spec) { s.addon(tid, j, err) })
}

func (w *World) opRefund(id string) {
	var err error
	w.step("refund", P("C08"), id, func() { err = w.ce.PlayerRefund(id); w.ret = err }, func(s *Spec) { s.refund(id, err) })
}

func (w *World) opCashOut(tid, id string) {
	var err error
	w.step("cashout", P("C28"), id+" at "+tid, func() { err = w.ce.PlayerCashOut(tid, id); w.ret = err }, func(s *Spec) { s.cashOut(tid, id, err) })
}

func (w *World) opQuit(tid, id string) {
	var err error
	w.step("quit", P("C12"), id+" at "+tid, func() { err = w.ce.PlayerQuit(tid, id); w.ret = err }, func(s *Spec) { s.quit(tid, id, err) })
}

func (w *World) opStart() {
	var err error
	var at int64
	props := P("C03")
	if ended(w.cur) {
		props = P("C01", "C03")
	}
	w.step("start", props, "", func() { at, err = w.ce.StartCompetition(); w.ret = err }, func(s *Spec) { s.startReq(at, err) })
}

func (w *World) opClose(st pc.CompetitionStateStatus) {
	var err error
	w.step("close", P("C01", "C15"), string(st), func() { err = w.ce.CloseCompetition(st); w.ret = err }, func(s *Spec) { s.closeReq(st, err) })
}

func (w *World) opUpdInit(l int) {
	var err error
	w.step("updInit", P("C21"), fmt.Sprint(l), func() { err = w.ce.UpdateCompetitionBlindInitialLevel(l); w.ret = err }, func(s *Spec) { s.updInit(l, err) })
}

func (w *World) opAutoEnd(tid string) {
	var err error
	w.step("autoend", P("C23"), tid, func() { err = w.ce.AutoGameOpenEnd(tid); w.ret = err }, func(s *Spec) { s.autoEnd(tid, err) })
}

// settledSoon: a settled report of this table is still to be delivered.
func (w *World) flushTable(ft *FakeTable) {
	for len(ft.Queue) > 0 && !w.stop() {
		w.deliver(ft)
	}
}

// tableAct lets one table do its next thing; false when it has nothing to do.
func (w *World) tableAct(ft *FakeTable) bool {
	r := w.rng
	st := ft.T.State
	now := time.Now()
	switch {
	case st.Status == pokertable.TableStateStatus_TableGameSettled:
		if now.Before(ft.NextAt) {
			return false
		}
		w.log("table %s stands by", ft.T.ID)
		w.be.Standby(ft)
		ft.NextAt = now.Add(time.Duration(r.Intn(3)) * time.Second)
		ft.StandbyDue = true
		if ft.StandbyEnd { // the real table stops dealing and says so
			ft.StandbyDue = false
			w.opAutoEnd(ft.T.ID)
		}
		return true
	case inHand(ft):
		if now.Before(ft.NextAt) {
			return false
		}
		bust := w.prof.Bust
		if bust == 0 {
			bust = []float64{0, 0.1, 0.3, 0.6}[r.Intn(4)]
		}
		w.be.SettleHand(ft, bust, r.Intn(8) == 0)
		w.log("table %s settles hand %d", ft.T.ID, st.GameCount)
		ft.NextAt = now.Add(time.Second)
		return true
	case ft.StandbyDue && !now.Before(ft.NextAt):
		ft.StandbyDue = false
		w.be.Continue(ft)
		w.log("table %s continues: %s", ft.T.ID, st.Status)
		return true
	case w.be.canOpen(ft):
		w.be.OpenHand(ft)
		w.log("table %s opens hand %d", ft.T.ID, st.GameCount)
		ft.NextAt = now.Add(time.Duration(r.Intn(4)) * time.Second)
		return true
	}
	// sitting down
	var out []string
	for _, p := range st.PlayerStates {
		if !p.IsIn {
			out = append(out, p.PlayerID)
		}
	}
	if len(out) > 0 && r.Intn(3) > 0 {
		id := out[r.Intn(len(out))]
		w.be.Join(ft, id)
		w.log("%s joins %s", id, ft.T.ID)
		return true
	}
	// a tournament table that was never paused deals its first hand once everybody sat down
	if w.mtt && len(out) == 0 && st.StartAt == -1 && st.Status != pokertable.TableStateStatus_TablePausing && len(st.PlayerStates) >= ft.T.Meta.TableMinPlayerCount {
		w.be.startTable(ft)
		w.log("table %s starts", ft.T.ID)
		return true
	}
	return false
}

func (w *World) weight(k string, def int) int {
	if v, ok := w.prof.W[k]; ok {
		return v
	}
	return def
}

// participatesNow: the player is in a hand that is still running or not yet cleared.
func (w *World) handOf(id string) *FakeTable {
	for _, ft := range w.tables() {
		if !inHand(ft) && ft.T.State.Status != pokertable.TableStateStatus_TableGameSettled {
			continue
		}
		i := ft.T.FindPlayerIdx(id)
		if i >= 0 && ft.T.State.PlayerStates[i].IsParticipated {
			return ft
		}
	}
	return nil
}

func (w *World) seatedAt(id string) *FakeTable {
	for _, ft := range w.tables() {
		if ft.T.FindPlayerIdx(id) >= 0 {
			return ft
		}
	}
	return nil
}

func (w *World) pendingSettle() bool {
	for _, ft := range w.tables() {
		for _, e := range ft.Queue {
			if e.Kind == "update" && e.Table.State.Status == pokertable.TableStateStatus_TableGameSettled {
				return true
			}
		}
	}
	return false
}

type choice struct {
	k string
	w int
}

func (w *World) act() {
	r := w.rng
	c := w.cur
	mode := c.Meta.Mode
	over := ended(c)
	started := w.sh.BlindStarted
	cs := []choice{}
	add := func(k string, def int) {
		if x := w.weight(k, def); x > 0 {
			cs = append(cs, choice{k, x})
		}
	}
	reg := c.State.Status == pc.CompetitionStateStatus_Registering
	n := len(c.State.Players)
	need := c.Meta.MinPlayerCount + 2
	if w.mtt {
		need = 2 + c.Meta.TableMaxSeatCount*2
	}
	if reg && !over && n < w.prof.Need && r.Intn(8) > 0 {
		w.do("buyin")
		if !w.stop() {
			w.drain(true)
		}
		return
	}
	switch {
	case over:
		add("buyin", 4)
	case reg && n < need:
		add("buyin", 30)
	case n < len(w.pool):
		add("buyin", 6)
	default:
		add("buyin", 1)
	}
	rb := 0
	for _, p := range c.State.Players {
		if p.Status == pc.CompetitionPlayerStatus_ReBuyWaiting {
			rb++
		}
	}
	if rb > 0 {
		add("rebuy", 8)
	}
	add("rebuyBad", 2)
	add("buyinZero", 1)
	add("addon", 3)
	if w.mtt {
		if reg && !w.sh.Started {
			add("start", 4)
		} else {
			add("start", 1)
		}
	} else if w.sh.Started || over {
		add("start", 1)
	}
	add("table", 45)
	add("time", 14)
	add("next", 6)
	add("deliver", 5)
	if len(w.repKeys) > 0 {
		add("dup", 2)
	}
	add("foreign", 1)
	add("updInit", 1)
	add("conc", 0)
	if !over {
		if started {
			add("refund", 1)
		} else {
			add("refund", 3)
		}
		if mode == cash {
			add("cashout", 4)
		} else {
			add("cashout", 1)
		}
		if mode == ct {
			add("quit", 3)
		} else {
			add("quit", 1)
		}
		if !w.mtt && c.State.Status == pc.CompetitionStateStatus_StoppedBuyIn {
			add("autoend", 1)
		} else {
			add("autoendIdle", 1)
		}
		if r.Intn(6) == 0 {
			add("close", 1)
		}
	} else {
		add("close", 3)
		add("lateReport", 3)
	}
	tot := 0
	for _, x := range cs {
		tot += x.w
	}
	k := r.Intn(tot)
	for _, x := range cs {
		k -= x.w
		if k < 0 {
			w.do(x.k)
			break
		}
	}
	if w.stop() {
		return
	}
	lag := w.prof.Lag
	if w.mtt || ended(w.cur) {
		lag = 0
	}
	w.drain(r.Float64() >= lag)
}

func (w *World) do(k string) {
	r := w.rng
	c := w.cur
	mode := c.Meta.Mode
	switch k {
	case "buyin":
		id := w.newPlayer()
		if id == "" {
			return
		}
		if mode == cash && len(w.tables()) > 0 && len(w.be.freeSeats(w.tables()[0])) == 0 {
			return
		}
		w.opBuyIn(id, w.chips(), pickI(r, 0, 1, 1, 1, 2, 2, 3))
		if r.Intn(4) == 0 && !w.stop() { // sits down right away
			w.drain(true)
			if ft := w.seatedAt(id); ft != nil {
				if w.loose {
					w.step("table", nil, "", func() { w.be.Join(ft, id) })
				} else {
					w.be.Join(ft, id)
				}
			}
		}
	case "rebuy", "rebuyBad":
		var ids []string
		for _, p := range c.State.Players {
			re := p.Status == pc.CompetitionPlayerStatus_ReBuyWaiting
			if mode == cash {
				if p.Status == pc.CompetitionPlayerStatus_CashLeaving {
					continue
				}
				if !re && k == "rebuy" {
					continue
				}
				ids = append(ids, p.PlayerID)
				continue
			}
			if re == (k == "rebuy") {
				ids = append(ids, p.PlayerID)
			}
		}
		if len(ids) == 0 {
			return
		}
		id := ids[r.Intn(len(ids))]
		if w.pendingSettle() {
			w.drain(true)
			if w.stop() {
				return
			}
		}
		if mode == cash {
			// topping up in the middle of a hand is the table's business
			if ft := w.handOf(id); ft != nil && inHand(ft) {
				return
			}
			ft := w.seatedAt(id)
			if ft == nil && len(w.tables()) > 0 && len(w.be.freeSeats(w.tables()[0])) == 0 {
				return
			}
		}
		w.opBuyIn(id, w.chips(), pickI(r, 1, 2))
	case "buyinZero":
		w.opBuyIn(w.randPlayer(), pickI64(r, 0, -5), 1)
	case "addon":
		w.drain(true)
		if w.stop() {
			return
		}
		id := w.randPlayer()
		if len(c.State.Players) > 0 && r.Intn(5) > 0 {
			id = w.cur.State.Players[r.Intn(len(w.cur.State.Players))].PlayerID
		}
		tid := w.anyTableID()
		if ft := w.seatedAt(id); ft != nil && r.Intn(6) > 0 {
			tid = ft.T.ID
		}
		if p := findP(w.cur, id); p != nil && p.Chips <= 0 {
			return // a table may take chips for a busted player, the competition's books are then open to interpretation
		}
		if ft := w.handOf(id); ft != nil && inHand(ft) {
			return
		}
		if p := findP(w.cur, id); p != nil && w.mtt {
			if ft := w.seatedAt(id); ft != nil && tid != ft.T.ID && w.be.Tables[tid] != nil && w.be.Tables[tid].T.FindPlayerIdx(id) >= 0 {
				return
			}
		}
		ch := w.chips()
		if r.Intn(8) == 0 {
			ch = pickI64(r, 0, -3)
		}
		w.opAddon(tid, id, ch, pickI(r, 1, 2))
	case "start":
		w.opStart()
	case "refund":
		w.drain(true)
		if w.stop() {
			return
		}
		id := w.randPlayer()
		if len(w.cur.State.Players) > 0 && r.Intn(4) > 0 {
			id = w.cur.State.Players[r.Intn(len(w.cur.State.Players))].PlayerID
		}
		w.opRefund(id)
		if w.set.Meta.Mode == cash && w.cur != nil && findP(w.cur, id) == nil { // the host sees a refunded cash player off
			for _, ft := range w.tables() {
				if ft.T.FindPlayerIdx(id) >= 0 && !ft.Closed && !ft.Released {
					w.be.removePlayers(ft, []string{id})
					w.be.emitUpdate(ft)
				}
			}
			w.drain(true)
		}
	case "cashout":
		w.drain(true)
		if w.stop() {
			return
		}
		id := w.randPlayer()
		if len(w.cur.State.Players) > 0 && r.Intn(5) > 0 {
			id = w.cur.State.Players[r.Intn(len(w.cur.State.Players))].PlayerID
		}
		if p := findP(w.cur, id); p == nil && mode == cash && r.Intn(3) > 0 {
			return
		}
		tid := firstTable(w.cur, w.be)
		w.opCashOut(tid, id)
	case "quit":
		w.drain(true)
		if w.stop() {
			return
		}
		id := w.randPlayer()
		if len(w.cur.State.Players) > 0 && r.Intn(5) > 0 {
			id = w.cur.State.Players[r.Intn(len(w.cur.State.Players))].PlayerID
		}
		if w.handOf(id) != nil {
			return // the real table does not survive losing a player of the running hand
		}
		if p := findP(w.cur, id); p != nil && p.Chips > 0 && r.Intn(3) > 0 {
			return // mostly busted players give up
		}
		w.opQuit(w.anyTableID(), id)
	case "updInit":
		ls := c.Meta.Blind.Levels
		l := ls[r.Intn(len(ls))].Level
		if l > 0 {
			w.opUpdInit(l)
		}
	case "autoend":
		w.drain(true)
		if !w.stop() {
			w.opAutoEnd(w.anyTableID())
		}
	case "autoendIdle":
		if w.cur.State.Status != pc.CompetitionStateStatus_StoppedBuyIn {
			w.opAutoEnd(w.anyTableID())
		}
	case "close":
		w.opClose([]pc.CompetitionStateStatus{pc.CompetitionStateStatus_End, pc.CompetitionStateStatus_ForceEnd, pc.CompetitionStateStatus_AutoEnd}[r.Intn(3)])
	case "dup":
		w.drain(true)
		if w.stop() || len(w.repKeys) == 0 {
			return
		}
		k := w.repKeys[r.Intn(len(w.repKeys))]
		if r.Intn(2) == 0 {
			k = w.repKeys[len(w.repKeys)-1]
		}
		t := w.reports[k]
		if i, _ := findT(w.cur, t.ID); i < 0 && !ended(w.cur) {
			return
		}
		w.report(w.set.CompetitionID, cloneTable(t))
		// the table soon reports its present state again
		if ft := w.be.Tables[t.ID]; ft != nil && !ft.Closed && !ft.Released && !w.stop() {
			w.be.emitUpdate(ft)
			w.dupFix(ft)
		}
	case "foreign":
		ft := w.someTable()
		if ft == nil {
			return
		}
		t := cloneTable(ft.T)
		t.ID = "foreign-" + t.ID
		t.State.Status = []pokertable.TableStateStatus{pokertable.TableStateStatus_TableClosed, pokertable.TableStateStatus_TablePausing, pokertable.TableStateStatus_TableCreated, pokertable.TableStateStatus_TableGamePlaying}[r.Intn(4)]
		w.report(w.set.CompetitionID, t)
	case "lateReport":
		ft := w.someTable()
		if ft == nil {
			if len(w.be.Order) == 0 {
				return
			}
			ft = w.be.Tables[w.be.Order[r.Intn(len(w.be.Order))]]
		}
		switch r.Intn(4) {
		case 0: // the table was about to deal its first hand
			ft.Queue = append(ft.Queue, FEvent{Kind: "ready", TableID: ft.T.ID, GameCount: ft.T.State.GameCount, Players: clonePSs(ft.T.State.PlayerStates)})
			w.drain(true)
			return
		case 1: // or still seating somebody
			if n := len(w.cur.State.Players); n > 0 {
				ft.Queue = append(ft.Queue, FEvent{Kind: "reserved", TableID: ft.T.ID, Player: &pokertable.TablePlayerState{
					PlayerID: w.cur.State.Players[r.Intn(n)].PlayerID, Seat: r.Intn(4), Bankroll: 100, IsIn: r.Intn(2) == 0}})
				w.drain(true)
			}
			return
		}
		t := cloneTable(ft.T)
		t.State.Status = []pokertable.TableStateStatus{pokertable.TableStateStatus_TableClosed, pokertable.TableStateStatus_TablePausing, pokertable.TableStateStatus_TableCreated, pokertable.TableStateStatus_TableGamePlaying}[r.Intn(4)]
		w.report(w.set.CompetitionID, t)
	case "conc":
		w.opConc()
	case "deliver":
		w.drain(true)
	case "table":
		ts := w.tables()
		for _, i := range r.Perm(len(ts)) {
			ft := ts[i]
			if len(ft.Queue) > 0 {
				continue
			}
			if w.loose {
				acted := false
				w.step("table", nil, "", func() { acted = w.tableAct(ft) })
				if acted {
					return
				}
				continue
			}
			if w.tableAct(ft) {
				return
			}
		}
		w.pass(time.Second)
	case "time":
		w.pass(time.Duration(1+r.Intn(3)) * time.Second)
	case "next":
		if at, ok := w.sh.next(); ok && at.Sub(time.Now()) < 40*time.Second {
			w.drain(true)
			if !w.stop() {
				w.advance(align(at))
			}
		} else {
			w.pass(5 * time.Second)
		}
	}
}

func (w *World) dupFix(ft *FakeTable) { w.flushTable(ft) }

func (w *World) someTable() *FakeTable {
	ts := w.tables()
	if len(ts) == 0 {
		return nil
	}
	return ts[w.rng.Intn(len(ts))]
}

// align returns the next x.4 s moment after t.
func align(t time.Time) time.Time {
	u := t.Truncate(time.Second).Add(400 * time.Millisecond)
	if !u.After(t) {
		u = u.Add(time.Second)
	}
	return u
}

func (w *World) pass(d time.Duration) { w.advance(time.Now().Add(d)) }

// run drives one case.
func (w *World) run(steps int) {
	// requests happen at x.4 s
	if d := align(time.Now()).Sub(time.Now()); d > 0 {
		time.Sleep(d)
	}
	if !w.create() {
		return
	}
	late := 0
	for i := 0; i < steps && !w.stop(); i++ {
		w.act()
		if ended(w.cur) {
			late++
			if late > max(8, w.prof.Late) {
				break
			}
		}
	}
	if !w.stop() && !ended(w.cur) {
		w.drain(true)
		w.opClose(pc.CompetitionStateStatus_ForceEnd)
	}
	if !w.stop() {
		w.advance(time.Now().Add(400 * time.Second))
	}
	w.finalChecks()
	if !ended(w.cur) {
		w.guard("teardown", func() { w.ce.CloseCompetition(pc.CompetitionStateStatus_ForceEnd) })
	}
}

func (w *World) finalChecks() {}

func firstTable(c *pc.Competition, b *Backend) string {
	if len(c.State.Tables) > 0 {
		return c.State.Tables[0].ID
	}
	if len(b.Order) > 0 {
		return b.Order[0]
	}
	return "nowhere"
}
