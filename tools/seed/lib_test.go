package demo

// A scripted table backend for demonstrations: it records commands and lets
// the demonstration report whatever a table would report.

import (
	"fmt"
	"os"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokerface/settlement"
	"github.com/weedbox/pokertable"
)

type cmd struct {
	Kind, Table string
	Players     []string
	Chips       map[string]int64
	GC          int
	Part        map[string]int
	Blind       []int64
	Setting     pokertable.TableSetting
}

type fake struct {
	ce       pc.CompetitionEngine
	order    []string
	tables   map[string]*pokertable.Table
	cmds     []cmd
	fail     func(c cmd) error
	updated  func(*pokertable.Table)
	reserved func(string, *pokertable.TablePlayerState)
	ready    func(string, int, []*pokertable.TablePlayerState)

	// announcements
	states []string
	cash   []pc.CompetitionPlayer
	ranks  []string
	errs   []error
	pub    []pc.Competition
}

func (f *fake) OnTableUpdated(fn func(*pokertable.Table))                           { f.updated = fn }
func (f *fake) OnTablePlayerReserved(fn func(string, *pokertable.TablePlayerState)) { f.reserved = fn }
func (f *fake) OnReadyOpenFirstTableGame(fn func(string, int, []*pokertable.TablePlayerState)) {
	f.ready = fn
}

func (f *fake) rec(c cmd) error {
	f.cmds = append(f.cmds, c)
	if f.fail != nil {
		return f.fail(c)
	}
	return nil
}

func chipsOf(js []pokertable.JoinPlayer) (ids []string, m map[string]int64) {
	m = map[string]int64{}
	for _, j := range js {
		ids = append(ids, j.PlayerID)
		m[j.PlayerID] = j.RedeemChips
	}
	return
}

func (f *fake) seat(t *pokertable.Table, js []pokertable.JoinPlayer) {
	for _, j := range js {
		s := 0
		for ; s < len(t.State.SeatMap); s++ {
			if t.State.SeatMap[s] < 0 {
				break
			}
		}
		if s == len(t.State.SeatMap) {
			continue
		}
		t.State.SeatMap[s] = len(t.State.PlayerStates)
		t.State.PlayerStates = append(t.State.PlayerStates, &pokertable.TablePlayerState{PlayerID: j.PlayerID, Seat: s, Bankroll: j.RedeemChips, IsIn: true})
	}
}

func (f *fake) unseat(t *pokertable.Table, ids []string) {
	gone := map[string]bool{}
	for _, id := range ids {
		gone[id] = true
	}
	ps := []*pokertable.TablePlayerState{}
	for i := range t.State.SeatMap {
		t.State.SeatMap[i] = -1
	}
	for _, p := range t.State.PlayerStates {
		if !gone[p.PlayerID] {
			t.State.SeatMap[p.Seat] = len(ps)
			ps = append(ps, p)
		}
	}
	t.State.PlayerStates = ps
	t.State.GamePlayerIndexes = nil
}

func (f *fake) CreateTable(o *pokertable.TableEngineOptions, s pokertable.TableSetting) (*pokertable.Table, error) {
	ids, m := chipsOf(s.JoinPlayers)
	if err := f.rec(cmd{Kind: "CreateTable", Table: s.TableID, Players: ids, Chips: m, Setting: s}); err != nil {
		return nil, err
	}
	b := s.Blind
	t := &pokertable.Table{ID: s.TableID, Meta: s.Meta, State: &pokertable.TableState{Status: pokertable.TableStateStatus_TableCreated, StartAt: -1, BlindState: &b,
		PlayerStates: []*pokertable.TablePlayerState{}}}
	for i := 0; i < s.Meta.TableMaxSeatCount; i++ {
		t.State.SeatMap = append(t.State.SeatMap, -1)
	}
	if b.Level == -1 {
		t.State.Status = pokertable.TableStateStatus_TablePausing
	}
	f.seat(t, s.JoinPlayers)
	f.tables[t.ID] = t
	f.order = append(f.order, t.ID)
	return t, nil
}
func (f *fake) PauseTable(id string) error     { return f.rec(cmd{Kind: "PauseTable", Table: id}) }
func (f *fake) CloseTable(id string) error     { return f.rec(cmd{Kind: "CloseTable", Table: id}) }
func (f *fake) StartTableGame(id string) error { return f.rec(cmd{Kind: "StartTableGame", Table: id}) }
func (f *fake) SetUpTableGame(id string, gc int, p map[string]int) error {
	return f.rec(cmd{Kind: "SetUpTableGame", Table: id, GC: gc, Part: p})
}
func (f *fake) UpdateBlind(id string, level int, ante, dealer, sb, bb int64) error {
	return f.rec(cmd{Kind: "UpdateBlind", Table: id, Blind: []int64{int64(level), ante, dealer, sb, bb}})
}
func (f *fake) UpdateTablePlayers(id string, js []pokertable.JoinPlayer, leave []string) (map[string]int, error) {
	ids, m := chipsOf(js)
	if err := f.rec(cmd{Kind: "UpdateTablePlayers", Table: id, Players: append(ids, leave...), Chips: m}); err != nil {
		return nil, err
	}
	t := f.tables[id]
	f.unseat(t, leave)
	f.seat(t, js)
	seats := map[string]int{}
	for _, p := range t.State.PlayerStates {
		seats[p.PlayerID] = p.Seat
	}
	return seats, nil
}
func (f *fake) PlayerReserve(id string, j pokertable.JoinPlayer) error {
	if err := f.rec(cmd{Kind: "PlayerReserve", Table: id, Players: []string{j.PlayerID}, Chips: map[string]int64{j.PlayerID: j.RedeemChips}}); err != nil {
		return err
	}
	if t := f.tables[id]; t != nil {
		for _, p := range t.State.PlayerStates {
			if p.PlayerID == j.PlayerID {
				p.Bankroll += j.RedeemChips
				return nil
			}
		}
		f.seat(t, []pokertable.JoinPlayer{j})
	}
	return nil
}
func (f *fake) PlayerJoin(id, p string) error { return nil }
func (f *fake) PlayerRedeemChips(id string, j pokertable.JoinPlayer) error {
	if err := f.rec(cmd{Kind: "PlayerRedeemChips", Table: id, Players: []string{j.PlayerID}, Chips: map[string]int64{j.PlayerID: j.RedeemChips}}); err != nil {
		return err
	}
	for _, p := range f.tables[id].State.PlayerStates {
		if p.PlayerID == j.PlayerID {
			p.Bankroll += j.RedeemChips
		}
	}
	return nil
}
func (f *fake) PlayersLeave(id string, ids []string) error {
	if err := f.rec(cmd{Kind: "PlayersLeave", Table: id, Players: ids}); err != nil {
		return err
	}
	if t := f.tables[id]; t != nil {
		f.unseat(t, ids)
	}
	return nil
}
func (f *fake) UpdateTable(t *pokertable.Table) {}
func (f *fake) ReleaseTable(id string) error    { return f.rec(cmd{Kind: "ReleaseTable", Table: id}) }

func (f *fake) count(kind string) (n int) {
	for _, c := range f.cmds {
		if c.Kind == kind {
			n++
		}
	}
	return
}

func (f *fake) last(kind string) *cmd {
	for i := len(f.cmds) - 1; i >= 0; i-- {
		if f.cmds[i].Kind == kind {
			return &f.cmds[i]
		}
	}
	return nil
}

// clone gives the reporter's copy of a table.
func clone(t *pokertable.Table) *pokertable.Table {
	s, _ := t.GetJSON()
	var c pokertable.Table
	if err := jsonUnmarshal(s, &c); err != nil {
		panic(err)
	}
	return &c
}

// report tells the competition the present state of a table.
func (f *fake) report(id string, st pokertable.TableStateStatus) {
	f.tables[id].State.Status = st
	f.ce.UpdateTable(clone(f.tables[id]))
}

// settle plays a hand with the given outcome (bankroll after the hand) and reports it.
func (f *fake) settle(id string, after map[string]int64) {
	f.settleQuiet(id, after)
	f.ce.UpdateTable(clone(f.tables[id]))
}

func (f *fake) settleQuiet(id string, after map[string]int64) {
	t := f.tables[id]
	if t.State.StartAt < 0 {
		t.State.StartAt = time.Now().Unix()
	}
	t.State.GameCount++
	t.State.Status = pokertable.TableStateStatus_TableGameSettled
	t.State.GamePlayerIndexes = nil
	t.State.NextBBOrderPlayerIDs = nil
	gs := &pokerface.GameState{GameID: fmt.Sprintf("%s-%d", id, t.State.GameCount), Result: &settlement.Result{}}
	for i, p := range t.State.PlayerStates {
		b, ok := after[p.PlayerID]
		p.IsParticipated = ok
		if !ok {
			continue
		}
		gi := len(t.State.GamePlayerIndexes)
		t.State.GamePlayerIndexes = append(t.State.GamePlayerIndexes, i)
		gs.Players = append(gs.Players, &pokerface.PlayerState{Idx: gi, Bankroll: p.Bankroll, Combination: &pokerface.CombinationInfo{Type: "HighCard", Cards: []string{"SA"}, Power: 10}})
		gs.Result.Players = append(gs.Result.Players, &settlement.PlayerResult{Idx: gi, Final: b, Changed: b - p.Bankroll})
		p.Bankroll = b
		if b > 0 {
			t.State.NextBBOrderPlayerIDs = append(t.State.NextBBOrderPlayerIDs, p.PlayerID)
		}
	}
	t.State.GameState = gs
}

func (f *fake) player(id string) *pc.CompetitionPlayer {
	for _, p := range f.ce.GetCompetition().State.Players {
		if p.PlayerID == id {
			return p
		}
	}
	return nil
}

func level(l, sec int, sb int64) pc.BlindLevel {
	return pc.BlindLevel{Level: l, SB: sb, BB: 2 * sb, Duration: sec, AllowAddon: true}
}

// setting is a plain competition: adjust what the demonstration needs.
func setting(mode pc.CompetitionMode) pc.CompetitionSetting {
	s := pc.CompetitionSetting{CompetitionID: "c", StartAt: -1, DisableAt: time.Now().Unix() + 3600,
		Meta: pc.CompetitionMeta{
			Blind:       pc.Blind{ID: "b", InitialLevel: 1, FinalBuyInLevelIndex: 1, Levels: []pc.BlindLevel{level(1, 100, 5), level(2, 100, 10), level(3, 100, 20)}},
			MaxDuration: 1000, MinPlayerCount: 2, TableMaxSeatCount: 6, TableMinPlayerCount: 2, RegulatorMinInitialPlayerCount: 3,
			Rule: pc.CompetitionRule_Default, Mode: mode, ReBuySetting: pc.ReBuySetting{MaxTime: 2, WaitingTime: 10},
			AddonSetting: pc.AddonSetting{MaxTime: 2, RedeemChips: []int64{100}}, ActionTime: 10, MinChipUnit: 1}}
	if mode != pc.CompetitionMode_MTT {
		s.TableSettings = []pc.TableSetting{{TableID: "t1"}}
	}
	return s
}

func listen(f *fake, ce pc.CompetitionEngine) {
	ce.OnCompetitionStateUpdated(func(e string, c *pc.Competition) { f.states = append(f.states, e) })
	ce.OnCompetitionPlayerCashOut(func(id string, p *pc.CompetitionPlayer) { f.cash = append(f.cash, *p) })
	ce.OnCompetitionFinalPlayerRankUpdated(func(id, p string, r int) { f.ranks = append(f.ranks, fmt.Sprintf("%s:%d", p, r)) })
	ce.OnCompetitionErrorUpdated(func(c *pc.Competition, err error) { f.errs = append(f.errs, err) })
	ce.OnCompetitionUpdated(func(c *pc.Competition) { f.pub = append(f.pub, *c) })
}

func create(s pc.CompetitionSetting) *fake {
	f := &fake{tables: map[string]*pokertable.Table{}}
	ce := pc.NewCompetitionEngine(pc.WithTableManagerBackend(f), pc.WithTableOptions(pokertable.NewTableEngineOptions()))
	f.ce = ce
	listen(f, ce)
	if _, err := ce.CreateCompetition(s); err != nil {
		fail("create: %v", err)
	}
	return f
}

func (f *fake) buyIn(id string, chips int64) {
	if err := f.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: id, RedeemChips: chips, Unit: 1}); err != nil {
		fail("buy-in of %s: %v", id, err)
	}
	// tables tell where the player sits
	for _, tid := range f.order {
		for _, p := range f.tables[tid].State.PlayerStates {
			if cp := f.player(p.PlayerID); cp != nil && (cp.CurrentSeat != p.Seat || cp.CurrentTableID != tid) {
				q := *p
				f.ce.UpdateReserveTablePlayerState(tid, &q)
			}
		}
	}
}

// fail ends the demonstration: the property is broken.
func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "BROKEN: "+f+"\n", a...)
	os.Exit(1)
}

// run executes the demonstration under a simulated clock, silently.
func run(t *testing.T, fn func()) {
	if n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
	synctest.Test(t, func(t *testing.T) {
		fn()
		os.Exit(0)
	})
}

func wait(d time.Duration) { time.Sleep(d); synctest.Wait() }

func sorted(a []string) []string { b := append([]string{}, a...); sort.Strings(b); return b }
