package vh

// C30: the native table backend over (a) a recording table manager and (b) the real table engine
// with bots playing whole competitions.

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"testing/synctest"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokercompetition/actor"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokerface/settlement"
	"github.com/weedbox/pokertable"
)

// ---- (a) forwarding

type ptCall struct {
	name string
	args []any
}

// recManager is a table manager that records what reaches it and answers as told.
type recManager struct {
	pokertable.Manager // anything else must not be used
	calls              []ptCall
	err                error
	seats              map[string]int
	table              *pokertable.Table
	cbs                []*pokertable.TableEngineCallbacks
}

func (m *recManager) rec(n string, a ...any) error {
	m.calls = append(m.calls, ptCall{n, a})
	return m.err
}
func (m *recManager) CreateTable(o *pokertable.TableEngineOptions, cb *pokertable.TableEngineCallbacks, s pokertable.TableSetting) (*pokertable.Table, error) {
	m.cbs = append(m.cbs, cb)
	err := m.rec("CreateTable", o, s)
	if err != nil {
		return nil, err
	}
	return m.table, nil
}
func (m *recManager) PauseTable(id string) error     { return m.rec("PauseTable", id) }
func (m *recManager) CloseTable(id string) error     { return m.rec("CloseTable", id) }
func (m *recManager) StartTableGame(id string) error { return m.rec("StartTableGame", id) }
func (m *recManager) SetUpTableGame(id string, gc int, p map[string]int) error {
	return m.rec("SetUpTableGame", id, gc, p)
}
func (m *recManager) UpdateBlind(id string, l int, a, d, s, b int64) error {
	return m.rec("UpdateBlind", id, l, a, d, s, b)
}
func (m *recManager) UpdateTablePlayers(id string, j []pokertable.JoinPlayer, l []string) (map[string]int, error) {
	err := m.rec("UpdateTablePlayers", id, j, l)
	if err != nil {
		return nil, err
	}
	return m.seats, nil
}
func (m *recManager) PlayerReserve(id string, j pokertable.JoinPlayer) error {
	return m.rec("PlayerReserve", id, j)
}
func (m *recManager) PlayerJoin(id, p string) error { return m.rec("PlayerJoin", id, p) }
func (m *recManager) PlayerRedeemChips(id string, j pokertable.JoinPlayer) error {
	return m.rec("PlayerRedeemChips", id, j)
}
func (m *recManager) PlayersLeave(id string, ids []string) error {
	return m.rec("PlayersLeave", id, ids)
}
func (m *recManager) ReleaseTable(id string) error { return m.rec("ReleaseTable", id) }

func randTable(r *rand.Rand) *pokertable.Table {
	n := r.Intn(7)
	st := &pokertable.TableState{
		Status:            []pokertable.TableStateStatus{pokertable.TableStateStatus_TableCreated, pokertable.TableStateStatus_TablePausing, pokertable.TableStateStatus_TableGameSettled, pokertable.TableStateStatus_TableGamePlaying, pokertable.TableStateStatus_TableClosed}[r.Intn(5)],
		StartAt:           r.Int63n(1e6) - 1,
		SeatMap:           []int{},
		GameCount:         r.Intn(100),
		BlindState:        &pokertable.TableBlindState{Level: r.Intn(9) - 1, Ante: r.Int63n(9), Dealer: r.Int63n(9), SB: r.Int63n(9), BB: r.Int63n(9)},
		CurrentDealerSeat: r.Intn(9) - 1, CurrentSBSeat: r.Intn(9) - 1, CurrentBBSeat: r.Intn(9) - 1, CurrentActionEndAt: r.Int63n(1e6),
		PlayerStates: []*pokertable.TablePlayerState{}, GamePlayerIndexes: []int{}, NextBBOrderPlayerIDs: []string{},
	}
	for i := 0; i < 9; i++ {
		st.SeatMap = append(st.SeatMap, r.Intn(n+1)-1)
	}
	for i := 0; i < n; i++ {
		st.PlayerStates = append(st.PlayerStates, randPS(r))
		st.GamePlayerIndexes = append(st.GamePlayerIndexes, i)
		st.NextBBOrderPlayerIDs = append(st.NextBBOrderPlayerIDs, fmt.Sprintf("p%d", r.Intn(30)))
	}
	if r.Intn(2) == 0 {
		x := *st.BlindState
		st.GameBlindState = &x
	}
	if r.Intn(2) == 0 {
		gs := &pokerface.GameState{GameID: fmt.Sprint("g", r.Intn(1000)), UpdatedAt: r.Int63()}
		gs.Status.CurrentEvent = "RoundStarted"
		gs.Status.Board = []string{"SA", "H2"}
		for i := 0; i < n; i++ {
			gs.Players = append(gs.Players, &pokerface.PlayerState{Idx: i, Positions: []string{"bb"}, Bankroll: r.Int63n(1000), StackSize: r.Int63n(1000), HoleCards: []string{"C3", "D4"},
				AllowedActions: []string{"fold", "call"}, Combination: &pokerface.CombinationInfo{Type: "Pair", Cards: []string{"SA"}, Power: r.Intn(99)}})
		}
		if r.Intn(2) == 0 {
			gs.Result = &settlement.Result{Players: []*settlement.PlayerResult{{Idx: 0, Final: r.Int63n(99), Changed: r.Int63n(99)}}, Pots: []*settlement.PotResult{}}
		}
		st.GameState = gs
	}
	if r.Intn(2) == 0 {
		st.LastPlayerGameAction = &pokertable.TablePlayerGameAction{CompetitionID: "c", TableID: "t", GameCount: r.Intn(9), PlayerID: "p", Action: "call", Chips: r.Int63n(99), Positions: []string{"sb"}}
	}
	return &pokertable.Table{ID: fmt.Sprint("t", r.Intn(1000)), State: st, UpdateAt: r.Int63n(1e6), UpdateSerial: r.Int63n(1e6),
		Meta: pokertable.TableMeta{CompetitionID: "c", Rule: "default", Mode: "ct", MaxDuration: r.Intn(99), TableMaxSeatCount: 9, TableMinPlayerCount: 2, MinChipUnit: 1, ActionTime: 9}}
}

func randPS(r *rand.Rand) *pokertable.TablePlayerState {
	p := &pokertable.TablePlayerState{PlayerID: fmt.Sprintf("p%d", r.Intn(30)), Seat: r.Intn(9), Bankroll: r.Int63n(1000), IsIn: r.Intn(2) == 0, IsParticipated: r.Intn(2) == 0, Positions: []string{"dealer"}}
	p.GameStatistics.ActionTimes = r.Intn(9)
	p.GameStatistics.IsVPIP = r.Intn(2) == 0
	p.GameStatistics.FoldRound = "flop"
	return p
}

// shared reports a pointer or slice element two values have in common, "" when they are independent.
func shared(a, b any) string {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, collect bool, path string) string
	walk = func(v reflect.Value, collect bool, path string) string {
		switch v.Kind() {
		case reflect.Ptr, reflect.Map:
			if v.IsNil() {
				return ""
			}
			if v.Kind() == reflect.Ptr && v.Elem().Type().Size() == 0 {
				return ""
			}
			if collect {
				seen[v.Pointer()] = true
			} else if seen[v.Pointer()] {
				return path
			}
			if v.Kind() == reflect.Ptr {
				return walk(v.Elem(), collect, path+"*")
			}
			for _, k := range v.MapKeys() {
				if p := walk(v.MapIndex(k), collect, fmt.Sprintf("%s[%v]", path, k)); p != "" {
					return p
				}
			}
		case reflect.Slice:
			if v.Len() == 0 {
				return ""
			}
			if collect {
				seen[v.Pointer()] = true
			} else if seen[v.Pointer()] {
				return path
			}
			for i := 0; i < v.Len(); i++ {
				if p := walk(v.Index(i), collect, fmt.Sprintf("%s[%d]", path, i)); p != "" {
					return p
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if p := walk(v.Field(i), collect, path+"."+v.Type().Field(i).Name); p != "" {
					return p
				}
			}
		case reflect.Interface:
			if !v.IsNil() {
				return walk(v.Elem(), collect, path)
			}
		}
		return ""
	}
	walk(reflect.ValueOf(a), true, "value")
	return walk(reflect.ValueOf(b), false, "value")
}

func randJoin(r *rand.Rand) pokertable.JoinPlayer {
	return pokertable.JoinPlayer{PlayerID: fmt.Sprintf("p%d", r.Intn(30)), RedeemChips: r.Int63n(1000), Seat: r.Intn(10) - 1}
}

func forwardCase(c *Case) string {
	r := c.r
	m := &recManager{}
	b := pc.NewNativeTableManagerBackend(m)
	var gotU []*pokertable.Table
	type res struct {
		id string
		p  *pokertable.TablePlayerState
	}
	var gotR []res
	type rdy struct {
		id string
		gc int
		ps []*pokertable.TablePlayerState
	}
	var gotF []rdy
	register := func() {
		b.OnTableUpdated(func(t *pokertable.Table) { gotU = append(gotU, t) })
		b.OnTablePlayerReserved(func(id string, p *pokertable.TablePlayerState) { gotR = append(gotR, res{id, p}) })
		b.OnReadyOpenFirstTableGame(func(id string, gc int, ps []*pokertable.TablePlayerState) { gotF = append(gotF, rdy{id, gc, ps}) })
	}
	late := r.Intn(4) == 0
	if !late {
		register()
	}
	for i := 0; i < 60; i++ {
		c.steps++
		m.calls, m.err = nil, nil
		if r.Intn(4) == 0 {
			m.err = fmt.Errorf("table error %d", r.Intn(1000))
		}
		m.seats = map[string]int{}
		for k := r.Intn(4); k > 0; k-- {
			m.seats[fmt.Sprintf("p%d", r.Intn(30))] = r.Intn(9)
		}
		m.table = randTable(r)
		id := fmt.Sprint("t", r.Intn(50))
		var want ptCall
		var err error
		k := r.Intn(17)
		if len(m.cbs) == 0 {
			k = 0
		}
		switch k {
		case 0:
			o := pokertable.NewTableEngineOptions()
			if r.Intn(5) == 0 {
				o = nil
			}
			s := pokertable.TableSetting{TableID: id, Meta: m.table.Meta, Blind: *m.table.State.BlindState}
			for k := r.Intn(4); k > 0; k-- {
				s.JoinPlayers = append(s.JoinPlayers, randJoin(r))
			}
			want = ptCall{"CreateTable", []any{o, s}}
			var t *pokertable.Table
			t, err = b.CreateTable(o, s)
			if m.err == nil {
				if c.ok(t != nil, "the created table was not returned") {
					c.ok(jsonOf(t) == jsonOf(m.table), "the created table is returned as %s, it is %s", jsonOf(t), jsonOf(m.table))
					p := shared(t, m.table)
					c.ok(p == "", "the created table handed to the competition is the table's own (%s)", p)
				}
			} else {
				c.ok(t == nil, "a table that could not be created was returned")
			}
			if late {
				register()
				late = false
			}
		case 1:
			want = ptCall{"PauseTable", []any{id}}
			err = b.PauseTable(id)
		case 2:
			want = ptCall{"CloseTable", []any{id}}
			err = b.CloseTable(id)
		case 3:
			want = ptCall{"StartTableGame", []any{id}}
			err = b.StartTableGame(id)
		case 4:
			gc := r.Intn(50)
			want = ptCall{"SetUpTableGame", []any{id, gc, m.seats}}
			err = b.SetUpTableGame(id, gc, m.seats)
		case 5:
			l, a, d, s, bb := r.Intn(9)-1, r.Int63n(100), r.Int63n(100), r.Int63n(100), r.Int63n(100)
			want = ptCall{"UpdateBlind", []any{id, l, a, d, s, bb}}
			err = b.UpdateBlind(id, l, a, d, s, bb)
		case 6:
			var js []pokertable.JoinPlayer
			var ls []string
			for k := r.Intn(4); k > 0; k-- {
				js = append(js, randJoin(r))
			}
			for k := r.Intn(4); k > 0; k-- {
				ls = append(ls, fmt.Sprintf("p%d", r.Intn(30)))
			}
			want = ptCall{"UpdateTablePlayers", []any{id, js, ls}}
			var sm map[string]int
			sm, err = b.UpdateTablePlayers(id, js, ls)
			if m.err == nil {
				c.ok(jsonOf(sm) == jsonOf(m.seats), "seats %v were returned as %v", m.seats, sm)
			}
		case 7:
			j := randJoin(r)
			want = ptCall{"PlayerReserve", []any{id, j}}
			err = b.PlayerReserve(id, j)
		case 8:
			want = ptCall{"PlayerJoin", []any{id, "p7"}}
			err = b.PlayerJoin(id, "p7")
		case 9:
			j := randJoin(r)
			want = ptCall{"PlayerRedeemChips", []any{id, j}}
			err = b.PlayerRedeemChips(id, j)
		case 10:
			ls := []string{}
			for k := r.Intn(4); k > 0; k-- {
				ls = append(ls, fmt.Sprintf("p%d", r.Intn(30)))
			}
			want = ptCall{"PlayersLeave", []any{id, ls}}
			err = b.PlayersLeave(id, ls)
		case 11:
			want = ptCall{"ReleaseTable", []any{id}}
			err = b.ReleaseTable(id)
		case 12: // a table that lives elsewhere
			t := randTable(r)
			before := jsonOf(t)
			gotU, gotR, gotF = nil, nil, nil
			c.events++
			b.UpdateTable(t)
			if c.ok(len(gotU) == 1 && len(gotR)+len(gotF)+len(m.calls) == 0, "a table passed in was reported as %d updates, %d reservations, %d first hands, %d commands", len(gotU), len(gotR), len(gotF), len(m.calls)) {
				c.ok(jsonOf(gotU[0]) == before && jsonOf(t) == before, "table %s was passed on as %s", before, jsonOf(gotU[0]))
			}
			c.hit("report:passed-in")
			continue
		default: // the table has something to say
			cb := m.cbs[r.Intn(len(m.cbs))]
			gotU, gotR, gotF = nil, nil, nil
			c.events++
			switch r.Intn(4) {
			case 0, 1:
				t := randTable(r)
				before := jsonOf(t)
				cb.OnTableUpdated(t)
				c.ok(jsonOf(t) == before, "reporting a table changed it")
				if c.ok(len(gotU) == 1 && len(gotR)+len(gotF) == 0, "one table update was reported as %d updates, %d reservations, %d first hands", len(gotU), len(gotR), len(gotF)) {
					c.ok(jsonOf(gotU[0]) == before, "table %s was reported as %s", before, jsonOf(gotU[0]))
					p := shared(t, gotU[0])
					c.ok(p == "", "the reported table shares %s with the table's own", p)
				}
				c.hit("report:update:" + string(t.State.Status))
			case 2:
				p := randPS(r)
				before := jsonOf(p)
				cb.OnTablePlayerReserved("c", id, p)
				if c.ok(len(gotR) == 1 && len(gotU)+len(gotF) == 0, "one reservation was reported as %d updates, %d reservations, %d first hands", len(gotU), len(gotR), len(gotF)) {
					c.ok(gotR[0].id == id && jsonOf(gotR[0].p) == before, "reservation of %s at %s was reported as %s at %s", before, id, jsonOf(gotR[0].p), gotR[0].id)
					x := shared(p, gotR[0].p)
					c.ok(x == "", "the reported reservation shares %s with the table's own", x)
				}
				c.hit("report:reserved")
			case 3:
				var ps []*pokertable.TablePlayerState
				for k := r.Intn(5); k > 0; k-- {
					ps = append(ps, randPS(r))
				}
				before := jsonOf(ps)
				gc := r.Intn(9)
				cb.OnReadyOpenFirstTableGame("c", id, gc, ps)
				if c.ok(len(gotF) == 1 && len(gotU)+len(gotR) == 0, "one first hand was reported as %d updates, %d reservations, %d first hands", len(gotU), len(gotR), len(gotF)) {
					c.ok(gotF[0].id == id && gotF[0].gc == gc && jsonOf(gotF[0].ps) == before, "the first hand %d at %s of %s was reported as %d at %s of %s", gc, id, before, gotF[0].gc, gotF[0].id, jsonOf(gotF[0].ps))
					x := shared(ps, gotF[0].ps)
					c.ok(x == "", "the reported players of the first hand share %s with the table's own", x)
				}
				c.hit("report:ready")
			}
			continue
		}
		c.cmds++
		c.ok(err == m.err || errors.Is(err, m.err), "%s: the table answered %v, the competition was told %v", want.name, m.err, err)
		if c.ok(len(m.calls) == 1, "%s reached the table as %d commands", want.name, len(m.calls)) {
			got := m.calls[0]
			c.ok(got.name == want.name && jsonOf(got.args) == jsonOf(want.args), "%s %s reached the table as %s %s", want.name, jsonOf(want.args), got.name, jsonOf(got.args))
		}
		c.hit(fmt.Sprintf("command:%s:err%v", want.name, m.err != nil))
	}
	return "forward"
}

// ---- (b) real tables

// spyManager sits between the native backend and the real table manager.
type spyManager struct {
	pokertable.Manager
	h *house
}

// spyBackend sits between the competition and the native backend.
type spyBackend struct {
	pc.TableManagerBackend
	h *house
}

// house runs one competition over real tables with bots.
type house struct {
	c    *Case
	mu   sync.Mutex
	real pokertable.Manager
	pm   pc.Manager
	id   string
	ce   pc.CompetitionEngine
	r    *rand.Rand

	inCmd    map[string]string  // command under way per goroutine-less key: last command as the backend saw it
	out      map[string]*report // reports on their way, by content
	got      map[string]int
	queues   map[string]chan *pokertable.Table
	bots     map[string]actor.Actor // table|player
	hands    int
	lastHand time.Time
	seats    map[string]int // player: seat of the last reservation
	at       map[string]string
	errs     map[string]int
	updates  int
	reserved int
	ready    int
	stopped  bool
	stamp    int64
	lastGS   map[string]string
	alive    map[string]*survivors // participants of a table's last hand that still have chips
	pending  []string
}

type survivors struct{ gc, n int }

type report struct {
	t                  *pokertable.Table
	made, told, passed int
}

func (h *house) note(f string, a ...any) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.c.log("%s %s", time.Now().UTC().Format("15:04:05.000"), fmt.Sprintf(f, a...))
}
func (h *house) fail(f string, a ...any) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.c.log("%s", time.Now().UTC().Format("15:04:05.000"))
	h.c.fail(f, a...)
}

// command compares what the competition asked for with what reaches the table.
func (h *house) ask(s string) {
	h.mu.Lock()
	h.pending = append(h.pending, s)
	h.c.cmds++
	h.mu.Unlock()
	h.note("command %s", s)
}
func (h *house) reach(s string) {
	h.mu.Lock()
	for i, p := range h.pending {
		if p == s {
			h.pending = append(h.pending[:i], h.pending[i+1:]...)
			h.mu.Unlock()
			return
		}
	}
	h.mu.Unlock()
	h.fail("command %s reached a table, nobody asked for it (asked: %v)", s, h.pending)
}
func cmdS(n string, a ...any) string { return n + jsonOf(a) }

func (b *spyBackend) OnTableUpdated(fn func(*pokertable.Table)) {
	b.TableManagerBackend.OnTableUpdated(func(t *pokertable.Table) {
		h := b.h
		s := jsonOf(t)
		h.mu.Lock()
		h.updates++
		u := h.out[s]
		if u != nil {
			u.told++
		}
		h.mu.Unlock()
		if u == nil {
			h.fail("the competition was told %s, which no table is reporting", s)
		} else if p := shared(u.t, t); p != "" {
			h.fail("the update of table %s shares %s with the table", t.ID, p)
		}
		fn(t)
	})
}
func (b *spyBackend) OnTablePlayerReserved(fn func(string, *pokertable.TablePlayerState)) {
	b.TableManagerBackend.OnTablePlayerReserved(func(id string, p *pokertable.TablePlayerState) {
		h := b.h
		h.mu.Lock()
		h.got["r"+id]++
		h.reserved++
		h.mu.Unlock()
		fn(id, p)
	})
}
func (b *spyBackend) OnReadyOpenFirstTableGame(fn func(string, int, []*pokertable.TablePlayerState)) {
	b.TableManagerBackend.OnReadyOpenFirstTableGame(func(id string, gc int, ps []*pokertable.TablePlayerState) {
		h := b.h
		h.mu.Lock()
		h.got["f"+id]++
		h.ready++
		h.mu.Unlock()
		fn(id, gc, ps)
	})
}
func (b *spyBackend) CreateTable(o *pokertable.TableEngineOptions, s pokertable.TableSetting) (*pokertable.Table, error) {
	b.h.ask(cmdS("CreateTable", s))
	return b.TableManagerBackend.CreateTable(o, s)
}
func (b *spyBackend) PauseTable(id string) error {
	b.h.ask(cmdS("PauseTable", id))
	return b.TableManagerBackend.PauseTable(id)
}
func (b *spyBackend) CloseTable(id string) error {
	b.h.ask(cmdS("CloseTable", id))
	return b.TableManagerBackend.CloseTable(id)
}
func (b *spyBackend) StartTableGame(id string) error {
	b.h.ask(cmdS("StartTableGame", id))
	return b.TableManagerBackend.StartTableGame(id)
}
func (b *spyBackend) SetUpTableGame(id string, gc int, p map[string]int) error {
	b.h.ask(cmdS("SetUpTableGame", id, gc, p))
	return b.TableManagerBackend.SetUpTableGame(id, gc, p)
}
func (b *spyBackend) UpdateBlind(id string, l int, a, d, s, bb int64) error {
	b.h.ask(cmdS("UpdateBlind", id, l, a, d, s, bb))
	return b.TableManagerBackend.UpdateBlind(id, l, a, d, s, bb)
}
func (b *spyBackend) UpdateTablePlayers(id string, j []pokertable.JoinPlayer, l []string) (map[string]int, error) {
	b.h.ask(cmdS("UpdateTablePlayers", id, j, l))
	return b.TableManagerBackend.UpdateTablePlayers(id, j, l)
}
func (b *spyBackend) PlayerReserve(id string, j pokertable.JoinPlayer) error {
	b.h.ask(cmdS("PlayerReserve", id, j))
	return b.TableManagerBackend.PlayerReserve(id, j)
}
func (b *spyBackend) PlayerRedeemChips(id string, j pokertable.JoinPlayer) error {
	b.h.ask(cmdS("PlayerRedeemChips", id, j))
	return b.TableManagerBackend.PlayerRedeemChips(id, j)
}
func (b *spyBackend) PlayersLeave(id string, ids []string) error {
	b.h.ask(cmdS("PlayersLeave", id, ids))
	return b.TableManagerBackend.PlayersLeave(id, ids)
}
func (b *spyBackend) ReleaseTable(id string) error {
	b.h.ask(cmdS("ReleaseTable", id))
	return b.TableManagerBackend.ReleaseTable(id)
}

func (m *spyManager) PauseTable(id string) error {
	m.h.reach(cmdS("PauseTable", id))
	return m.Manager.PauseTable(id)
}
func (m *spyManager) CloseTable(id string) error {
	m.h.reach(cmdS("CloseTable", id))
	return m.Manager.CloseTable(id)
}
func (m *spyManager) StartTableGame(id string) error {
	m.h.reach(cmdS("StartTableGame", id))
	return m.Manager.StartTableGame(id)
}
func (m *spyManager) SetUpTableGame(id string, gc int, p map[string]int) error {
	m.h.reach(cmdS("SetUpTableGame", id, gc, p))
	return m.Manager.SetUpTableGame(id, gc, p)
}
func (m *spyManager) UpdateBlind(id string, l int, a, d, s, b int64) error {
	m.h.reach(cmdS("UpdateBlind", id, l, a, d, s, b))
	return m.Manager.UpdateBlind(id, l, a, d, s, b)
}
func (m *spyManager) UpdateTablePlayers(id string, j []pokertable.JoinPlayer, l []string) (map[string]int, error) {
	m.h.reach(cmdS("UpdateTablePlayers", id, j, l))
	return m.Manager.UpdateTablePlayers(id, j, l)
}
func (m *spyManager) PlayerReserve(id string, j pokertable.JoinPlayer) error {
	m.h.reach(cmdS("PlayerReserve", id, j))
	return m.Manager.PlayerReserve(id, j)
}
func (m *spyManager) PlayerRedeemChips(id string, j pokertable.JoinPlayer) error {
	m.h.reach(cmdS("PlayerRedeemChips", id, j))
	return m.Manager.PlayerRedeemChips(id, j)
}
func (m *spyManager) PlayersLeave(id string, ids []string) error {
	m.h.reach(cmdS("PlayersLeave", id, ids))
	return m.Manager.PlayersLeave(id, ids)
}
func (m *spyManager) ReleaseTable(id string) error {
	m.h.reach(cmdS("ReleaseTable", id))
	return m.Manager.ReleaseTable(id)
}

func (m *spyManager) CreateTable(o *pokertable.TableEngineOptions, cb *pokertable.TableEngineCallbacks, s pokertable.TableSetting) (*pokertable.Table, error) {
	h := m.h
	h.reach(cmdS("CreateTable", s))
	w := *cb
	q := make(chan *pokertable.Table, 100000)
	h.mu.Lock()
	h.queues[s.TableID] = q
	h.mu.Unlock()
	w.OnTableUpdated = func(t *pokertable.Table) {
		// the report is passed on as it was when it was made: the table may go on meanwhile
		rep, cp := cloneTable(t), cloneTable(t)
		k := jsonOf(rep)
		h.mu.Lock()
		u := h.out[k]
		if u == nil {
			u = &report{t: rep}
			h.out[k] = u
		}
		u.made++
		h.mu.Unlock()
		cb.OnTableUpdated(rep)
		h.mu.Lock()
		told := u.told - u.passed
		u.passed++
		if u.passed == u.made {
			delete(h.out, k)
		}
		if gs := cp.State.GameState; gs != nil {
			gs.UpdatedAt = 0
			k := jsonOf(gs)
			if h.lastGS[t.ID] != k {
				h.lastGS[t.ID] = k
				h.stamp++
			}
			gs.UpdatedAt = h.stamp
		}
		h.mu.Unlock()
		if told != 1 {
			h.fail("a report of table %s (%s) reached the competition %d times", t.ID, cp.State.Status, told)
		}
		if cp.State.Status == pokertable.TableStateStatus_TableGameSettled {
			h.mu.Lock()
			if live := h.alive[t.ID]; live == nil || live.gc != cp.State.GameCount {
				h.hands++
				h.lastHand = time.Now()
				v := &survivors{gc: cp.State.GameCount}
				for _, p := range cp.State.PlayerStates {
					if p.IsParticipated && p.Bankroll > 0 {
						v.n++
					}
				}
				h.alive[t.ID] = v
			}
			h.mu.Unlock()
			h.note("table %s settled hand %d: %s", t.ID, cp.State.GameCount, psString(cp))
		}
		select {
		case q <- cp:
		default:
		}
	}
	w.OnTablePlayerReserved = func(cid, tid string, p *pokertable.TablePlayerState) {
		h.mu.Lock()
		n := h.got["r"+tid]
		h.mu.Unlock()
		seat, pid := p.Seat, p.PlayerID
		cb.OnTablePlayerReserved(cid, tid, p)
		h.mu.Lock()
		told := h.got["r"+tid] - n
		h.seats[pid], h.at[pid] = seat, tid
		h.mu.Unlock()
		if told != 1 {
			h.fail("the reservation of seat %d at %s for %s reached the competition %d times", seat, tid, pid, told)
		}
	}
	w.OnReadyOpenFirstTableGame = func(cid, tid string, gc int, ps []*pokertable.TablePlayerState) {
		h.mu.Lock()
		n := h.got["f"+tid]
		h.mu.Unlock()
		cb.OnReadyOpenFirstTableGame(cid, tid, gc, ps)
		h.mu.Lock()
		told := h.got["f"+tid] - n
		h.mu.Unlock()
		if told != 1 {
			h.fail("the first hand of %s was announced to the competition %d times", tid, told)
		}
	}
	w.OnTableErrorUpdated = func(t *pokertable.Table, err error) {
		h.note("table %s error: %v", s.TableID, err)
		cb.OnTableErrorUpdated(t, err)
	}
	w.OnAutoGameOpenEnd = func(cid, tid string) {
		h.note("table %s does not deal any more", tid)
		go h.pm.AutoGameOpenEnd(cid, tid)
	}
	t, err := m.Manager.CreateTable(o, &w, s)
	if err == nil {
		go h.dealer(s.TableID, q)
	}
	return t, err
}

// dealer shows the states of one table to the bots that sit there.
func (h *house) dealer(id string, q chan *pokertable.Table) {
	for t := range q {
		time.Sleep(time.Duration(1+h.rnd(20)) * time.Millisecond)
		if t.State.Status == pokertable.TableStateStatus_TableClosed {
			return
		}
		te, err := h.real.GetTableEngine(id)
		if err != nil {
			return
		}
		for _, p := range t.State.PlayerStates {
			key := id + "|" + p.PlayerID
			h.mu.Lock()
			a := h.bots[key]
			if a == nil {
				a = actor.NewActor()
				a.SetAdapter(actor.NewTableEngineAdapter(te, t))
				bot := actor.NewBotRunner(p.PlayerID)
				bot.OnTableAutoJoinActionRequested(func(cid, tid, pid string) { h.real.PlayerJoin(tid, pid) })
				a.SetRunner(bot)
				h.bots[key] = a
			}
			h.mu.Unlock()
			a.GetTable().UpdateTableState(t)
		}
	}
}

func (h *house) rnd(n int) int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.r.Intn(n)
}

func houseCase(c *Case) string {
	r := c.r
	mode := []pcMode{ct, cash, mtt}[r.Intn(3)]
	return playHouse(c, mode)
}

func playHouse(c *Case, mode pcMode) string {
	r := c.r
	if d := align(time.Now()).Sub(time.Now()); d > 0 {
		time.Sleep(d)
	}
	h := &house{c: c, r: rand.New(rand.NewSource(r.Int63())), out: map[string]*report{}, got: map[string]int{}, queues: map[string]chan *pokertable.Table{},
		bots: map[string]actor.Actor{}, seats: map[string]int{}, at: map[string]string{}, errs: map[string]int{}, lastGS: map[string]string{}, alive: map[string]*survivors{}}
	h.real = pokertable.NewManager()
	h.pm = pc.NewManager(&spyBackend{pc.NewNativeTableManagerBackend(&spyManager{h.real, h}), h})
	to := pokertable.NewTableEngineOptions()
	to.GameContinueInterval = 1 + r.Intn(3)
	h.pm.SetTableEngineOptions(to)
	id := fmt.Sprintf("h%d", r.Intn(1e9))
	set := genSetting(r, mode, id)
	n := 0
	lv := 4 + r.Intn(4)
	set.Meta.Blind.Levels = nil
	sb := int64(5)
	for i := 0; i < lv; i++ {
		l := pc.BlindLevel{Level: i + 1, SB: sb, BB: 2 * sb, Duration: 20 + r.Intn(60)}
		if r.Intn(2) == 0 {
			l.Ante = 1 + r.Int63n(sb)
		}
		set.Meta.Blind.Levels = append(set.Meta.Blind.Levels, l)
		sb *= 2
		if r.Intn(4) == 0 && i < lv-1 {
			set.Meta.Blind.Levels = append(set.Meta.Blind.Levels, pc.BlindLevel{Level: -1, Duration: 10 + r.Intn(30)})
		}
	}
	set.Meta.Blind.Levels[len(set.Meta.Blind.Levels)-1].Duration = -1
	set.Meta.Blind.InitialLevel = 1
	set.Meta.Blind.FinalBuyInLevelIndex = r.Intn(3)
	// a table whose time is up before buy-in stops never deals again
	set.Meta.MaxDuration = 30 + pickI(r, 60, 120, 400)
	for i := 0; i <= set.Meta.Blind.FinalBuyInLevelIndex+1; i++ {
		set.Meta.MaxDuration += set.Meta.Blind.Levels[i].Duration
	}
	// this pokertable version locks up when a re-buy or its lapse meets the opening of a hand
	set.Meta.ReBuySetting = pc.ReBuySetting{}
	set.Meta.MinPlayerCount = 2
	set.Meta.TableMinPlayerCount = 2
	set.Meta.AdvanceSetting = pc.AdvanceSetting{}
	// pokertable deals neither omaha nor tables without nine seats reliably
	set.Meta.Rule = pc.CompetitionRule_Default
	set.Meta.TableMaxSeatCount = 9
	set.DisableAt = time.Now().Unix() + 300
	set.StartAt = unset
	switch mode {
	case ct:
		n = 2 + r.Intn(set.Meta.TableMaxSeatCount-1)
	case cash:
		set.Meta.Blind.FinalBuyInLevelIndex = pc.NoStopBuyInIndex
		n = 2 + r.Intn(set.Meta.TableMaxSeatCount-1)
	case mtt:
		n = set.Meta.RegulatorMinInitialPlayerCount + r.Intn(3*set.Meta.TableMaxSeatCount)
		if n < 2 {
			n = 2
		}
	}
	var total int64
	o := pc.NewDefaultCompetitionEngineOptions()
	lastSerial := int64(0)
	o.OnCompetitionUpdated = func(cc *pc.Competition) {
		h.mu.Lock()
		c.events++
		lastSerial = cc.UpdateSerial
		h.mu.Unlock()
	}
	o.OnCompetitionErrorUpdated = func(cc *pc.Competition, err error) {
		h.mu.Lock()
		h.errs[err.Error()]++
		h.mu.Unlock()
		h.note("competition error: %v", err)
	}
	settledEv := 0
	finals := map[string]int{}
	o.OnCompetitionStateUpdated = func(e string, cc *pc.Competition) {
		h.mu.Lock()
		if e == pc.CompetitionStateEvent_Settled {
			settledEv++
		}
		h.mu.Unlock()
		h.note("competition: %s (%s)", e, cc.State.Status)
	}
	o.OnCompetitionFinalPlayerRankUpdated = func(cid, pid string, rank int) {
		h.mu.Lock()
		finals[pid] = rank
		h.mu.Unlock()
		h.note("%s ends as %d", pid, rank)
	}
	h.note("%d players, %s", n, jsonOf(set))
	_, err := h.pm.CreateCompetition(set, o)
	if !c.ok(err == nil, "creation failed: %v", err) {
		return string(mode)
	}
	h.id = id
	h.ce, _ = h.pm.GetCompetitionEngine(id)
	_ = lastSerial
	buy := func(pid string) {
		chips := pickI64(r, 100, 200, 300)
		err := h.pm.PlayerBuyIn(id, pc.JoinPlayer{PlayerID: pid, RedeemChips: chips, Unit: 1})
		h.note("buy-in %s %d: %v", pid, chips, err)
		if err == nil {
			total += chips
		}
		synctest.Wait()
	}
	for i := 0; i < n; i++ {
		buy(fmt.Sprintf("p%d", i))
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
		}
	}
	if mode == mtt {
		_, err := h.pm.StartCompetition(id)
		c.ok(err == nil, "the start was refused: %v", err)
	}
	begin := time.Now()
	h.mu.Lock()
	h.lastHand = begin
	h.mu.Unlock()
	quietMax := time.Duration(0)
	end := false
	for i := 0; i < 3600; i++ {
		time.Sleep(time.Second)
		synctest.Wait()
		progress.Add(1)
		c.steps++
		cc := h.ce.GetCompetition()
		var sum int64
		for _, p := range cc.State.Players {
			sum += p.Chips
			if p.Chips < 0 {
				h.fail("%s has %d chips", p.PlayerID, p.Chips)
			}
		}
		if sum != total {
			h.fail("the players hold %d chips, %d were bought", sum, total)
		}
		if ended(cc) {
			end = true
			break
		}
		holders := 0
		for _, p := range cc.State.Players {
			if p.Chips > 0 {
				holders++
			}
		}
		if holders < 2 && cc.State.Status == pc.CompetitionStateStatus_DelayedBuyIn { // nobody to play with until somebody buys in
			h.mu.Lock()
			h.lastHand = time.Now()
			h.mu.Unlock()
		}
		// nothing may stand still while there is something to play
		brk := cc.State.BlindState.CurrentLevelIndex >= 0 && cc.Meta.Blind.Levels[cc.State.BlindState.CurrentLevelIndex].Level == -1
		h.mu.Lock()
		q := time.Since(h.lastHand)
		if brk {
			h.lastHand = time.Now()
		}
		h.mu.Unlock()
		if q > quietMax {
			quietMax = q
		}
		if q > 90*time.Second+time.Duration(set.Meta.ReBuySetting.WaitingTime)*time.Second && mode != cash {
			break
		}
		if mode == cash && i > set.Meta.MaxDuration+60 {
			break
		}
		if len(c.bad) > 0 {
			break
		}
	}
	cc := h.ce.GetCompetition()
	h.note("after %s: %s, %d hands, quiet %s, errors %v", time.Since(begin), cc.State.Status, h.hands, quietMax, h.errs)
	if len(c.bad) == 0 {
		// this pokertable version stops dealing when a single participant of a hand keeps chips and others sit down before its next hand
		excused := false
		for _, t := range cc.State.Tables {
			if v := h.alive[t.ID]; v != nil && v.n < 2 && t.State.Status != pokertable.TableStateStatus_TableClosed {
				excused = true
			}
		}
		if excused && !end {
			c.hit("stalled by pokertable:" + string(mode))
		}
		if mode != cash && !excused && !c.ok(end, "the competition did not end: %s after %s, %d hands, last hand %s ago; %s", cc.State.Status, time.Since(begin), h.hands, time.Since(h.lastHand), jsonOf(cc.State.Players)) {
			for _, t := range cc.State.Tables {
				h.note("table %s: %s", t.ID, jsonOf(t.State))
			}
		}
		c.ok(h.hands > 0, "not a single hand was played")
		if end {
			c.ok(settledEv == 1, "the end was announced %d times", settledEv)
			c.ok(len(h.errs) == 0, "errors during an undisturbed competition: %v", h.errs)
		}
	}
	c.hit(fmt.Sprintf("played:%s:%v:hands%d:players%d", mode, cc.State.Status, h.hands/5*5, n))
	if !end {
		h.pm.CloseCompetition(id, pc.CompetitionStateStatus_ForceEnd)
	}
	time.Sleep(5 * time.Second)
	h.mu.Lock()
	c.ok(len(h.pending) == 0 || len(c.bad) > 0, "commands never reached a table: %v", h.pending)
	h.mu.Unlock()
	return string(mode)
}

func init() {
	workloads["C30"] = func(res *Result) {
		for _, idx := range cases() {
			mark(idx)
			c := newCase(caseRand(vhProp, idx))
			var kind string
			if (idx/8)%4 == 3 {
				kind = houseCase(c)
			} else {
				kind = forwardCase(c)
			}
			res.addCase(idx, c, kind)
			if res.NViol >= 40 {
				break
			}
		}
	}
}
