package vh

// A table manager backend that behaves like pokertable's tables as far as a
// competition can observe them, records every command, and hands its
// notifications back either synchronously (from inside the command) or
// through a queue whose delivery the workload controls.

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokerface/settlement"
	"github.com/weedbox/pokertable"
)

var (
	ErrFakeNotFound = errors.New("fake: table not found")
	ErrFakePlayer   = errors.New("fake: player not found")
	ErrFakeFull     = errors.New("fake: no empty seats")
	ErrFakeInjected = errors.New("fake: injected fault")
)

type Cmd struct {
	At           time.Time                      `json:"at"`
	Kind         string                         `json:"kind"`
	Table        string                         `json:"table,omitempty"`
	Joins        []pokertable.JoinPlayer        `json:"joins,omitempty"`
	Players      []string                       `json:"players,omitempty"`
	GameCount    int                            `json:"gc,omitempty"`
	Participants map[string]int                 `json:"participants,omitempty"`
	Blind        *pokertable.TableBlindState    `json:"blind,omitempty"`
	Setting      *pokertable.TableSetting       `json:"setting,omitempty"`
	Opts         *pokertable.TableEngineOptions `json:"-"`
	Seats        map[string]int                 `json:"seats,omitempty"`
	Created      *pokertable.Table              `json:"-"`
	Err          error                          `json:"-"`
	ErrS         string                         `json:"err,omitempty"`
	Late         bool                           `json:"late,omitempty"` // given after the competition had ended
	refuse       int
	used         bool
}

func (c *Cmd) String() string {
	b, _ := json.Marshal(c)
	return string(b)
}

type FEvent struct {
	Kind      string // update | reserved | ready
	Table     *pokertable.Table
	TableID   string
	Player    *pokertable.TablePlayerState
	GameCount int
	Players   []*pokertable.TablePlayerState
}

type FakeTable struct {
	T           *pokertable.Table
	Owner       string // competition
	Queue       []FEvent
	Setup       map[string]int // pending set-up (participants), nil when none
	Released    bool
	Closed      bool
	MaxDur      int
	PauseReq    bool
	LastSettled *pokertable.Table
	NextAt      time.Time // when the standby table may go on
	StandbyEnd  bool
	StandbyDue  bool
}

type Backend struct {
	Rng     *rand.Rand
	Tables  map[string]*FakeTable
	Order   []string
	Sync    bool
	Cmds    []*Cmd
	AllCmds int
	Fault   func(kind, table string) error // consulted before every command
	Tired   func(c *Cmd) bool              // gives in to a seating asked for again and again
	OnCmd   func(kind, table string)       // called before every command (sync workloads)
	// callbacks registered by the engine(s); Deliver overrides them when set
	onUpdated  func(*pokertable.Table)
	onReserved func(string, *pokertable.TablePlayerState)
	onReady    func(string, int, []*pokertable.TablePlayerState)
	Deliver    func(owner string, ev FEvent)
	Registered int
	InCreate   bool
	Refuse     int // 0: refused commands have errors of their own; 1: of the same text; 2: the same error
	InBalance  int // CreateTable and UpdateTablePlayers commands being carried out
}

func NewBackend(rng *rand.Rand) *Backend {
	return &Backend{Rng: rng, Tables: map[string]*FakeTable{}}
}

func cloneTable(t *pokertable.Table) *pokertable.Table {
	if t == nil {
		return nil
	}
	c := *t
	if t.State != nil {
		s := *t.State
		s.SeatMap = append([]int(nil), t.State.SeatMap...)
		if s.SeatMap == nil && t.State.SeatMap != nil {
			s.SeatMap = []int{}
		}
		if t.State.GameBlindState != nil {
			x := *t.State.GameBlindState
			s.GameBlindState = &x
		}
		if t.State.BlindState != nil {
			x := *t.State.BlindState
			s.BlindState = &x
		}
		if t.State.PlayerStates != nil {
			s.PlayerStates = make([]*pokertable.TablePlayerState, len(t.State.PlayerStates))
			for i, p := range t.State.PlayerStates {
				s.PlayerStates[i] = clonePS(p)
			}
		}
		s.GamePlayerIndexes = cpInts(t.State.GamePlayerIndexes)
		s.NextBBOrderPlayerIDs = cpStrs(t.State.NextBBOrderPlayerIDs)
		if t.State.GameState != nil {
			b, _ := json.Marshal(t.State.GameState)
			var g pokerface.GameState
			json.Unmarshal(b, &g)
			s.GameState = &g
		}
		if t.State.LastPlayerGameAction != nil {
			x := *t.State.LastPlayerGameAction
			x.Positions = cpStrs(x.Positions)
			s.LastPlayerGameAction = &x
		}
		c.State = &s
	}
	return &c
}

func clonePS(p *pokertable.TablePlayerState) *pokertable.TablePlayerState {
	if p == nil {
		return nil
	}
	q := *p
	q.Positions = cpStrs(p.Positions)
	return &q
}

func clonePSs(ps []*pokertable.TablePlayerState) []*pokertable.TablePlayerState {
	out := make([]*pokertable.TablePlayerState, len(ps))
	for i, p := range ps {
		out[i] = clonePS(p)
	}
	return out
}

func cpInts(a []int) []int {
	if a == nil {
		return nil
	}
	return append([]int{}, a...)
}
func cpStrs(a []string) []string {
	if a == nil {
		return nil
	}
	return append([]string{}, a...)
}

func (b *Backend) rec(c *Cmd) *Cmd {
	c.At = time.Now()
	c.refuse = b.Refuse
	b.Cmds = append(b.Cmds, c)
	b.AllCmds++
	if b.OnCmd != nil {
		b.OnCmd(c.Kind, c.Table)
	}
	if b.Fault != nil {
		if err := b.Fault(c.Kind, c.Table); err != nil {
			c.fail(err)
		}
	}
	return c
}

// refusal: refused commands may have errors of their own, to be recognised wherever they are reported.
type refusal struct {
	why  error
	text string
}

func (e *refusal) Error() string { return e.text }
func (e *refusal) Unwrap() error { return e.why }

var refusals atomic.Int64

func (c *Cmd) fail(err error) error {
	if err == nil {
		return nil
	}
	c.ErrS = err.Error()
	switch c.refuse {
	case 0: // each with a text of its own
		err = &refusal{err, fmt.Sprintf("%v (%s, refusal <%d>)", err, c.Kind, refusals.Add(1))}
	case 1: // different errors of the same text
		err = &refusal{err, err.Error()}
	}
	c.Err = err
	return err
}

// tells reports whether an error passed to the host is (or wraps, or quotes) the one of this refused command.
func (c *Cmd) tells(err error) bool {
	return err != nil && c.Err != nil && (errors.Is(err, c.Err) || strings.Contains(err.Error(), c.Err.Error()))
}

func (b *Backend) table(id string) *FakeTable {
	ft := b.Tables[id]
	if ft == nil || ft.Released || ft.Closed {
		return nil
	}
	return ft
}

// ---- notifications

func (b *Backend) emit(ft *FakeTable, ev FEvent) {
	if b.Sync {
		b.Dispatch(ft.Owner, ev)
		return
	}
	if b.InCreate {
		if ev.Kind == "update" {
			return // a competition does not own the table yet
		}
	}
	ft.Queue = append(ft.Queue, ev)
}

func (b *Backend) Dispatch(owner string, ev FEvent) {
	if b.Deliver != nil {
		b.Deliver(owner, ev)
		return
	}
	switch ev.Kind {
	case "update":
		b.onUpdated(ev.Table)
	case "reserved":
		b.onReserved(ev.TableID, ev.Player)
	case "ready":
		b.onReady(ev.TableID, ev.GameCount, ev.Players)
	}
}

func (b *Backend) emitUpdate(ft *FakeTable) {
	ft.T.UpdateSerial++
	ft.T.UpdateAt = time.Now().Unix()
	b.emit(ft, FEvent{Kind: "update", Table: cloneTable(ft.T), TableID: ft.T.ID})
}
func (b *Backend) emitReserved(ft *FakeTable, p *pokertable.TablePlayerState) {
	b.emit(ft, FEvent{Kind: "reserved", TableID: ft.T.ID, Player: clonePS(p)})
}

// ---- TableManagerBackend

var _ pc.TableManagerBackend = (*Backend)(nil)

func (b *Backend) OnTableUpdated(fn func(*pokertable.Table)) { b.Registered++; b.onUpdated = fn }
func (b *Backend) OnTablePlayerReserved(fn func(string, *pokertable.TablePlayerState)) {
	b.onReserved = fn
}
func (b *Backend) OnReadyOpenFirstTableGame(fn func(string, int, []*pokertable.TablePlayerState)) {
	b.onReady = fn
}

func (b *Backend) CreateTable(o *pokertable.TableEngineOptions, s pokertable.TableSetting) (*pokertable.Table, error) {
	b.InBalance++
	defer func() { b.InBalance-- }()
	sc := s
	sc.JoinPlayers = append([]pokertable.JoinPlayer{}, s.JoinPlayers...)
	c := b.rec(&Cmd{Kind: "CreateTable", Table: s.TableID, Setting: &sc, Opts: o})
	if c.Err != nil {
		return nil, c.Err
	}
	if len(s.JoinPlayers) > s.Meta.TableMaxSeatCount {
		return nil, c.fail(errors.New("fake: invalid create setting"))
	}
	bl := s.Blind
	st := pokertable.TableStateStatus_TableCreated
	if bl.Level == -1 {
		st = pokertable.TableStateStatus_TablePausing
	}
	seatMap := make([]int, s.Meta.TableMaxSeatCount)
	for i := range seatMap {
		seatMap[i] = -1
	}
	t := &pokertable.Table{ID: s.TableID, Meta: s.Meta, State: &pokertable.TableState{
		Status: st, StartAt: -1, SeatMap: seatMap, BlindState: &bl,
		CurrentDealerSeat: -1, CurrentSBSeat: -1, CurrentBBSeat: -1,
		PlayerStates: []*pokertable.TablePlayerState{}, GamePlayerIndexes: []int{}, NextBBOrderPlayerIDs: []string{},
	}}
	ft := &FakeTable{T: t, Owner: s.Meta.CompetitionID}
	b.Tables[t.ID] = ft
	b.Order = append(b.Order, t.ID)
	b.InCreate = true
	b.emitUpdate(ft)
	if len(s.JoinPlayers) > 0 {
		b.addPlayers(ft, s.JoinPlayers)
		if s.Meta.Mode == pokertable.CompetitionMode_MTT && t.State.Status != pokertable.TableStateStatus_TablePausing {
			t.State.Status = pokertable.TableStateStatus_TableBalancing
		}
		b.emitUpdate(ft)
	}
	b.InCreate = false
	c.Created = cloneTable(t)
	return cloneTable(t), nil
}

func (b *Backend) freeSeats(ft *FakeTable) []int {
	var out []int
	for i, v := range ft.T.State.SeatMap {
		if v < 0 {
			out = append(out, i)
		}
	}
	return out
}

func (b *Backend) addPlayers(ft *FakeTable, js []pokertable.JoinPlayer) error {
	free := b.freeSeats(ft)
	if len(free) < len(js) {
		return ErrFakeFull
	}
	for _, j := range js {
		if ft.T.FindPlayerIdx(j.PlayerID) >= 0 {
			return fmt.Errorf("fake: player %s already seated", j.PlayerID)
		}
	}
	var added []*pokertable.TablePlayerState
	for _, j := range js {
		seat := j.Seat
		if seat < 0 {
			k := b.Rng.Intn(len(free))
			seat = free[k]
			free = append(free[:k], free[k+1:]...)
		}
		p := &pokertable.TablePlayerState{PlayerID: j.PlayerID, Seat: seat, Positions: []string{}, Bankroll: j.RedeemChips}
		ft.T.State.SeatMap[seat] = len(ft.T.State.PlayerStates)
		ft.T.State.PlayerStates = append(ft.T.State.PlayerStates, p)
		added = append(added, p)
	}
	for _, p := range added {
		b.emitReserved(ft, p)
	}
	return nil
}

func (b *Backend) removePlayers(ft *FakeTable, ids []string) error {
	rm := map[string]bool{}
	for _, id := range ids {
		if ft.T.FindPlayerIdx(id) < 0 {
			return ErrFakePlayer
		}
		rm[id] = true
	}
	st := ft.T.State
	old := st.PlayerStates
	newIdx := map[int]int{}
	ps := []*pokertable.TablePlayerState{}
	for i, p := range old {
		if rm[p.PlayerID] {
			continue
		}
		newIdx[i] = len(ps)
		ps = append(ps, p)
	}
	st.PlayerStates = ps
	for i := range st.SeatMap {
		st.SeatMap[i] = -1
	}
	for i, p := range ps {
		st.SeatMap[p.Seat] = i
	}
	g := []int{}
	for _, i := range st.GamePlayerIndexes {
		if n, ok := newIdx[i]; ok {
			g = append(g, n)
		}
	}
	st.GamePlayerIndexes = g
	return nil
}

func (b *Backend) PauseTable(id string) error {
	c := b.rec(&Cmd{Kind: "PauseTable", Table: id})
	if c.Err != nil {
		return c.Err
	}
	ft := b.table(id)
	if ft == nil {
		return c.fail(ErrFakeNotFound)
	}
	ft.T.State.Status = pokertable.TableStateStatus_TablePausing
	ft.PauseReq = true
	return nil
}

func (b *Backend) CloseTable(id string) error {
	c := b.rec(&Cmd{Kind: "CloseTable", Table: id})
	if c.Err != nil {
		return c.Err
	}
	ft := b.table(id)
	if ft == nil {
		return c.fail(ErrFakeNotFound)
	}
	ft.T.State.Status = pokertable.TableStateStatus_TableClosed
	ft.Closed = true
	b.emitUpdate(ft)
	return nil
}

func (b *Backend) StartTableGame(id string) error {
	c := b.rec(&Cmd{Kind: "StartTableGame", Table: id})
	if c.Err != nil {
		return c.Err
	}
	ft := b.table(id)
	if ft == nil {
		return c.fail(ErrFakeNotFound)
	}
	b.startTable(ft)
	return nil
}

func (b *Backend) startTable(ft *FakeTable) {
	if ft.T.State.StartAt != -1 {
		return
	}
	ft.T.State.StartAt = time.Now().Unix()
	b.emitUpdate(ft)
	b.emit(ft, FEvent{Kind: "ready", TableID: ft.T.ID, GameCount: ft.T.State.GameCount, Players: clonePSs(ft.T.State.PlayerStates)})
}

func (b *Backend) SetUpTableGame(id string, gc int, parts map[string]int) error {
	cp := map[string]int{}
	for k, v := range parts {
		cp[k] = v
	}
	c := b.rec(&Cmd{Kind: "SetUpTableGame", Table: id, GameCount: gc, Participants: cp})
	if c.Err != nil {
		return c.Err
	}
	ft := b.table(id)
	if ft == nil {
		return c.fail(ErrFakeNotFound)
	}
	ft.Setup = cp
	return nil
}

func (b *Backend) UpdateBlind(id string, level int, ante, dealer, sb, bb int64) error {
	bl := pokertable.TableBlindState{Level: level, Ante: ante, Dealer: dealer, SB: sb, BB: bb}
	c := b.rec(&Cmd{Kind: "UpdateBlind", Table: id, Blind: &bl})
	if c.Err != nil {
		return c.Err
	}
	ft := b.table(id)
	if ft == nil {
		return c.fail(ErrFakeNotFound)
	}
	x := bl
	ft.T.State.BlindState = &x
	return nil
}

func (b *Backend) UpdateTablePlayers(id string, js []pokertable.JoinPlayer, leave []string) (map[string]int, error) {
	b.InBalance++
	defer func() { b.InBalance-- }()
	c := &Cmd{Kind: "UpdateTablePlayers", Table: id, Joins: append([]pokertable.JoinPlayer{}, js...), Players: append([]string{}, leave...)}
	if b.Tired != nil && len(leave) == 0 && b.Tired(c) {
		return map[string]int{}, nil
	}
	b.rec(c)
	if c.Err != nil {
		return nil, c.Err
	}
	ft := b.table(id)
	if ft == nil {
		return nil, c.fail(ErrFakeNotFound)
	}
	if len(leave) > 0 {
		if err := b.removePlayers(ft, leave); err != nil {
			return nil, c.fail(err)
		}
	}
	if len(js) > 0 {
		if err := b.addPlayers(ft, js); err != nil {
			return nil, c.fail(err)
		}
	}
	b.emitUpdate(ft)
	c.Seats = ft.T.PlayerSeatMap()
	return ft.T.PlayerSeatMap(), nil
}

func (b *Backend) PlayerReserve(id string, j pokertable.JoinPlayer) error {
	c := b.rec(&Cmd{Kind: "PlayerReserve", Table: id, Joins: []pokertable.JoinPlayer{j}})
	if c.Err != nil {
		return c.Err
	}
	ft := b.table(id)
	if ft == nil {
		return c.fail(ErrFakeNotFound)
	}
	i := ft.T.FindPlayerIdx(j.PlayerID)
	if i < 0 {
		if len(b.freeSeats(ft)) == 0 {
			return c.fail(ErrFakeFull)
		}
		if err := b.addPlayers(ft, []pokertable.JoinPlayer{j}); err != nil {
			return c.fail(err)
		}
	} else {
		p := ft.T.State.PlayerStates[i]
		p.Bankroll += j.RedeemChips
		b.emitReserved(ft, p)
	}
	b.emitUpdate(ft)
	return nil
}

func (b *Backend) PlayerJoin(id, pid string) error {
	ft := b.table(id)
	if ft == nil {
		return ErrFakeNotFound
	}
	b.Join(ft, pid)
	return nil
}

func (b *Backend) PlayerRedeemChips(id string, j pokertable.JoinPlayer) error {
	c := b.rec(&Cmd{Kind: "PlayerRedeemChips", Table: id, Joins: []pokertable.JoinPlayer{j}})
	if c.Err != nil {
		return c.Err
	}
	ft := b.table(id)
	if ft == nil {
		return c.fail(ErrFakeNotFound)
	}
	i := ft.T.FindPlayerIdx(j.PlayerID)
	if i < 0 {
		return c.fail(ErrFakePlayer)
	}
	ft.T.State.PlayerStates[i].Bankroll += j.RedeemChips
	b.emitUpdate(ft)
	return nil
}

func (b *Backend) PlayersLeave(id string, ids []string) error {
	c := b.rec(&Cmd{Kind: "PlayersLeave", Table: id, Players: append([]string{}, ids...)})
	if c.Err != nil {
		return c.Err
	}
	ft := b.table(id)
	if ft == nil {
		return c.fail(ErrFakeNotFound)
	}
	if err := b.removePlayers(ft, ids); err != nil {
		return c.fail(err)
	}
	b.emitUpdate(ft)
	return nil
}

func (b *Backend) UpdateTable(t *pokertable.Table) { b.onUpdated(t) }

func (b *Backend) ReleaseTable(id string) error {
	c := b.rec(&Cmd{Kind: "ReleaseTable", Table: id})
	if c.Err != nil {
		return c.Err
	}
	ft := b.table(id)
	if ft == nil {
		return c.fail(ErrFakeNotFound)
	}
	ft.Released = true
	return nil
}

// ---- what happens at a table by itself

func (b *Backend) Join(ft *FakeTable, pid string) {
	i := ft.T.FindPlayerIdx(pid)
	if i < 0 || ft.T.State.PlayerStates[i].IsIn {
		return
	}
	ft.T.State.PlayerStates[i].IsIn = true
	b.emitUpdate(ft)
}

func inHand(ft *FakeTable) bool {
	switch ft.T.State.Status {
	case pokertable.TableStateStatus_TableGameOpened, pokertable.TableStateStatus_TableGamePlaying:
		return true
	}
	return false
}

func (b *Backend) eligible(ft *FakeTable) []int {
	var out []int
	for i, p := range ft.T.State.PlayerStates {
		if p.IsIn && p.Bankroll > 0 {
			out = append(out, i)
		}
	}
	return out
}

func (b *Backend) canOpen(ft *FakeTable) bool {
	if ft.Closed || ft.Released || ft.Setup == nil || inHand(ft) || ft.T.State.Status == pokertable.TableStateStatus_TableGameSettled {
		return false
	}
	bl := ft.T.State.BlindState
	if bl.Level <= 0 {
		return false
	}
	return len(ft.Setup) > 1 && len(b.eligible(ft)) >= 2
}

// OpenHand deals the next hand.
func (b *Backend) OpenHand(ft *FakeTable) {
	ft.Setup = nil
	st := ft.T.State
	el := b.eligible(ft)
	sort.Slice(el, func(i, j int) bool { return st.PlayerStates[el[i]].Seat < st.PlayerStates[el[j]].Seat })
	// rotate the big blind
	k := 0
	for i, pi := range el {
		if st.PlayerStates[pi].Seat > st.CurrentBBSeat {
			k = i
			break
		}
	}
	n := len(el)
	bbI := el[k]
	rot := []int{}
	for i := 0; i < n; i++ {
		rot = append(rot, el[(k+1+i)%n]) // starts behind the BB, ends with it
	}
	for _, p := range st.PlayerStates {
		p.IsParticipated = false
		p.Positions = []string{}
		p.GameStatistics = pokertable.TablePlayerGameStatistics{}
	}
	for _, pi := range el {
		st.PlayerStates[pi].IsParticipated = true
	}
	st.PlayerStates[bbI].Positions = []string{"bb"}
	st.GamePlayerIndexes = rot
	st.CurrentBBSeat = st.PlayerStates[bbI].Seat
	st.CurrentDealerSeat = st.PlayerStates[rot[0]].Seat
	st.CurrentSBSeat = st.PlayerStates[rot[len(rot)-2]].Seat
	st.GameCount++
	st.Status = pokertable.TableStateStatus_TableGameOpened
	gs := &pokerface.GameState{GameID: fmt.Sprintf("%s-%d", ft.T.ID, st.GameCount)}
	for gi, pi := range rot {
		p := st.PlayerStates[pi]
		gs.Players = append(gs.Players, &pokerface.PlayerState{Idx: gi, Positions: []string{}, Bankroll: p.Bankroll,
			InitialStackSize: p.Bankroll, StackSize: p.Bankroll, HoleCards: []string{"SA", "HK"},
			Combination: &pokerface.CombinationInfo{Type: "", Cards: []string{}, Power: 0}})
	}
	b.emitUpdate(ft)
	st.GameState = gs
	st.Status = pokertable.TableStateStatus_TableGamePlaying
	x := *st.BlindState
	st.GameBlindState = &x
	b.emitUpdate(ft)
}

var comboTypes = []string{"HighCard", "Pair", "TwoPair", "ThreeOfAKind", "Straight", "Flush", "FullHouse"}
var foldRounds = []string{"preflop", "flop", "turn", "river"}

// SettleHand produces a result for the running hand. bust is the probability that a losing
// player loses everything; winner >= 0 forces the winning game index.
func (b *Backend) SettleHand(ft *FakeTable, bust float64, walk bool) {
	st := ft.T.State
	r := b.Rng
	n := len(st.GamePlayerIndexes)
	stake := make([]int64, n)
	start := make([]int64, n)
	for gi, pi := range st.GamePlayerIndexes {
		start[gi] = st.PlayerStates[pi].Bankroll
	}
	nWin := 1
	if r.Float64() < 0.25 && n > 2 {
		nWin = 2
	}
	win := map[int]bool{}
	for _, w := range r.Perm(n)[:nWin] {
		win[w] = true
	}
	if walk {
		win = map[int]bool{n - 1: true} // the big blind
	}
	var pot int64
	for gi := range stake {
		if start[gi] <= 0 {
			continue
		}
		switch {
		case win[gi]:
			continue
		case r.Float64() < bust && !walk:
			stake[gi] = start[gi]
		case start[gi] > 1 && r.Intn(14) == 0 && !walk: // a chip and a chair
			stake[gi] = start[gi] - 1
		default:
			m := start[gi] / 4
			if m > 40 {
				m = 40
			}
			if m > 0 {
				stake[gi] = r.Int63n(m + 1)
			}
		}
		pot += stake[gi]
	}
	res := &settlement.Result{Pots: []*settlement.PotResult{}}
	chg := make([]int64, n)
	for gi := range stake {
		chg[gi] = -stake[gi]
	}
	var ws []int
	for gi := 0; gi < n; gi++ {
		if win[gi] {
			ws = append(ws, gi)
		}
	}
	share := pot / int64(len(ws))
	rest := pot
	for i, w := range ws {
		x := share
		if i == len(ws)-1 {
			x = rest
		}
		rest -= x
		chg[w] += x
	}
	notFold := 0
	fold := make([]bool, n)
	for gi, pi := range st.GamePlayerIndexes {
		p := st.PlayerStates[pi]
		gp := st.GameState.Players[gi]
		gs := &p.GameStatistics
		*gs = pokertable.TablePlayerGameStatistics{}
		rb := func() bool { return r.Intn(2) == 0 }
		if !win[gi] && stake[gi] < start[gi] && (walk || rb()) {
			fold[gi] = true
			gs.IsFold = true
			gs.FoldRound = foldRounds[r.Intn(4)]
			if walk {
				gs.FoldRound = "preflop"
			}
		} else {
			notFold++
		}
		gp.Fold = fold[gi]
		if !(walk && win[gi]) {
			gs.ActionTimes = r.Intn(6)
			gs.RaiseTimes = r.Intn(3)
			gs.CallTimes = r.Intn(3)
			gs.CheckTimes = r.Intn(4)
		}
		ch := func(c, h *bool) {
			*c = rb()
			*h = *c && rb()
		}
		ch(&gs.IsVPIPChance, &gs.IsVPIP)
		ch(&gs.IsPFRChance, &gs.IsPFR)
		ch(&gs.IsATSChance, &gs.IsATS)
		ch(&gs.Is3BChance, &gs.Is3B)
		ch(&gs.IsFt3BChance, &gs.IsFt3B)
		ch(&gs.IsCheckRaiseChance, &gs.IsCheckRaise)
		ch(&gs.IsCBetChance, &gs.IsCBet)
		ch(&gs.IsFtCBChance, &gs.IsFtCB)
		gp.Combination = &pokerface.CombinationInfo{Type: comboTypes[r.Intn(len(comboTypes))], Power: r.Intn(50), Cards: []string{fmt.Sprintf("C%d", r.Intn(1000)), "H2"}}
		p.Bankroll += chg[gi]
		res.Players = append(res.Players, &settlement.PlayerResult{Idx: gi, Final: p.Bankroll, Changed: chg[gi]})
	}
	for gi, pi := range st.GamePlayerIndexes {
		gs := &st.PlayerStates[pi].GameStatistics
		if !fold[gi] && notFold > 1 {
			gs.ShowdownWinningChance = true
			gs.IsShowdownWinning = win[gi]
		}
	}
	if r.Intn(3) == 0 { // results are not necessarily in game order
		r.Shuffle(len(res.Players), func(i, j int) { res.Players[i], res.Players[j] = res.Players[j], res.Players[i] })
	}
	st.GameState.Result = res
	st.GameState.Status.CurrentEvent = "GameClosed"
	st.Status = pokertable.TableStateStatus_TableGameSettled
	nb := []string{}
	mx := len(st.SeatMap)
	for i := st.CurrentBBSeat + 1; i <= mx+st.CurrentBBSeat; i++ {
		pi := st.SeatMap[i%mx]
		if pi >= 0 && st.PlayerStates[pi].Bankroll > 0 {
			nb = append(nb, st.PlayerStates[pi].PlayerID)
		}
	}
	st.NextBBOrderPlayerIDs = nb
	ft.LastSettled = cloneTable(ft.T)
	b.emitUpdate(ft)
}

// Standby clears the settled hand.
func (b *Backend) Standby(ft *FakeTable) {
	st := ft.T.State
	if ft.Closed || ft.Released {
		return
	}
	paused := st.Status == pokertable.TableStateStatus_TablePausing
	if !paused {
		st.Status = pokertable.TableStateStatus_TableGameStandby
	}
	st.GamePlayerIndexes = []int{}
	st.NextBBOrderPlayerIDs = []string{}
	st.GameState = nil
	st.LastPlayerGameAction = nil
	for _, p := range st.PlayerStates {
		p.Positions = []string{}
		p.GameStatistics = pokertable.TablePlayerGameStatistics{}
		p.IsParticipated = p.Bankroll > 0 && p.IsIn
	}
	ft.StandbyEnd = false
	if st.StartAt > 0 && (ft.T.Meta.Mode == pokertable.CompetitionMode_CT || ft.T.Meta.Mode == pokertable.CompetitionMode_Cash) &&
		time.Now().Unix() > st.StartAt+int64(ft.T.Meta.MaxDuration) {
		ft.StandbyEnd = true
	}
}

func aliveCount(t *pokertable.Table) int {
	n := 0
	for _, p := range t.State.PlayerStates {
		if p.Bankroll > 0 {
			n++
		}
	}
	return n
}

// Continue is what a standby table does after its pause between hands: it pauses or sets up the next hand itself.
func (b *Backend) Continue(ft *FakeTable) {
	st := ft.T.State
	if ft.Closed || ft.Released {
		return
	}
	if st.BlindState.Level == -1 || aliveCount(ft.T) < ft.T.Meta.TableMinPlayerCount {
		st.Status = pokertable.TableStateStatus_TablePausing
		b.emitUpdate(ft)
		return
	}
	if ft.PauseReq {
		return // paused by the competition: no next hand
	}
	m := map[string]int{}
	for i, p := range st.PlayerStates {
		if p.Bankroll > 0 {
			m[p.PlayerID] = i
		}
	}
	ft.Setup = m
}
