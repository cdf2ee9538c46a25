package vh

// Hands of the real poker engine (pokerface, through pokertable's game backend), driven move by
// move: what the players' runners of the actor package see and answer.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/weedbox/pokercompetition/actor"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokertable"
)

type Move struct {
	At    time.Time
	Who   string
	Kind  string
	Chips int64
}

func (m Move) String() string { return fmt.Sprintf("%s %s %d", m.Who, m.Kind, m.Chips) }

// seatAdapter is the table as one player's runner sees it; it records the moves the runner makes.
type seatAdapter struct {
	a      actor.Actor
	who    string
	moves  []Move
	onMove func(Move) error
	d      *Deal
	due    []string // announcements the accepted moves must lead to
	ann    []string // announcements made
}

func annKey(table, game string, count int, round, action string, chips int64) string {
	return fmt.Sprintf("%s %s #%d %s: %s %d", table, game, count, round, action, chips)
}

func (s *seatAdapter) announced(table, game string, count int, round, action string, chips int64) {
	s.ann = append(s.ann, annKey(table, game, count, round, action, chips))
}

// dueFor is how the move about to be made has to be announced ("" for moves that are not).
func (s *seatAdapter) dueFor(m Move) string {
	if s.d == nil || s.d.gs == nil {
		return ""
	}
	gs := s.d.gs
	gi, _ := s.d.allowed(m.Who)
	if gi < 0 {
		return ""
	}
	chips := int64(0)
	switch m.Kind {
	case "check", "fold":
	case "bet", "raise":
		chips = m.Chips
	case "call":
		chips = gs.Status.CurrentWager - gs.Players[gi].Wager
	case "allin":
		chips = gs.Players[gi].StackSize
	default:
		return ""
	}
	return annKey(s.d.T.ID, gs.GameID, s.d.T.State.GameCount, gs.Status.Round, m.Kind, chips)
}

// annOK compares the announcements with the accepted moves (C38).
func (c *Case) annOK(s *seatAdapter, what string) bool {
	ok := fmt.Sprint(s.ann) == fmt.Sprint(s.due)
	if !ok {
		c.failP("C38", "%s: announced %q, accepted were %q", what, s.ann, s.due)
	}
	for _, k := range s.due {
		if i := strings.Index(k, ": "); i > 0 {
			c.hitP("C38", "announced %s", strings.Fields(k[i+2:])[0])
		}
	}
	s.due, s.ann = nil, nil
	return ok
}

func (s *seatAdapter) SetActor(a actor.Actor)                     { s.a = a }
func (s *seatAdapter) UpdateTableState(t *pokertable.Table) error { return s.a.UpdateTableState(t) }
func (s *seatAdapter) GetGamePlayerIndex(string) int              { return -1 }
func (s *seatAdapter) GetGameState() *pokerface.GameState         { return nil }
func (s *seatAdapter) GetTableState() *pokertable.Table           { return nil }
func (s *seatAdapter) ShowCard(p string, cards []string) error    { return s.rec(p, "showcard", 0) }
func (s *seatAdapter) AutoMode(p string, on bool) error           { return s.rec(p, "automode", 0) }
func (s *seatAdapter) Pass(p string) error                        { return s.rec(p, "pass", 0) }
func (s *seatAdapter) Ready(p string) error                       { return s.rec(p, "ready", 0) }
func (s *seatAdapter) Pay(p string, c int64) error                { return s.rec(p, "pay", c) }
func (s *seatAdapter) Check(p string) error                       { return s.rec(p, "check", 0) }
func (s *seatAdapter) Bet(p string, c int64) error                { return s.rec(p, "bet", c) }
func (s *seatAdapter) Call(p string) error                        { return s.rec(p, "call", 0) }
func (s *seatAdapter) Fold(p string) error                        { return s.rec(p, "fold", 0) }
func (s *seatAdapter) Allin(p string) error                       { return s.rec(p, "allin", 0) }
func (s *seatAdapter) Raise(p string, c int64) error              { return s.rec(p, "raise", c) }
func (s *seatAdapter) rec(p, kind string, chips int64) error {
	m := Move{At: time.Now(), Who: p, Kind: kind, Chips: chips}
	s.moves = append(s.moves, m)
	due := s.dueFor(m)
	if s.onMove != nil {
		if err := s.onMove(m); err != nil {
			return err
		}
	}
	if due != "" {
		s.due = append(s.due, due)
	}
	return nil
}

// Deal is one table with a hand in progress.
type Deal struct {
	r     *rand.Rand
	be    *pokertable.NativeGameBackend
	T     *pokertable.Table
	gs    *pokerface.GameState
	clock int64
	gameN int
	short bool
	old   *pokertable.Table // the state before
	prev  *pokertable.Table // a state of the hand before, with moves open
	last  *pokertable.Table // such a state of this hand
}

func newDeal(r *rand.Rand, id string, nPlayers, actionTime int) *Deal {
	d := &Deal{r: r, be: pokertable.NewNativeGameBackend(), clock: 1000}
	d.T = &pokertable.Table{ID: id, Meta: pokertable.TableMeta{CompetitionID: "comp-" + id, Mode: "ct", Rule: "default", ActionTime: actionTime, TableMaxSeatCount: 9, TableMinPlayerCount: 2},
		State: &pokertable.TableState{Status: pokertable.TableStateStatus_TableGameStandby, SeatMap: []int{}, BlindState: &pokertable.TableBlindState{Level: 1}, PlayerStates: []*pokertable.TablePlayerState{}, GamePlayerIndexes: []int{}, NextBBOrderPlayerIDs: []string{}}}
	for i := 0; i < nPlayers; i++ {
		d.T.State.PlayerStates = append(d.T.State.PlayerStates, &pokertable.TablePlayerState{PlayerID: fmt.Sprintf("p%d", i), Seat: i, IsIn: true, Positions: []string{},
			Bankroll: int64(pickI(r, 0, 1, 3, 9, 15, 20, 33, 60, 150, 400, 1000, 1000))})
	}
	return d
}

// start deals a hand to everyone seated, in and with chips (in random order of play); false when there are not two.
func (d *Deal) start() bool {
	r := d.r
	st := d.T.State
	var el []int
	for i, p := range st.PlayerStates {
		p.IsParticipated = false
		if p.IsIn && p.Bankroll > 0 {
			el = append(el, i)
		}
	}
	if len(el) < 2 {
		return false
	}
	k := r.Intn(len(el))
	el = append(el[k:], el[:k]...)
	opts := pokerface.NewStardardGameOptions()
	deck := pokerface.NewStandardDeckCards()
	d.short = r.Intn(6) == 0
	if d.short {
		opts = pokerface.NewShortDeckGameOptions()
		deck = pokerface.NewShortDeckCards()
	}
	opts.Deck = append([]string{}, deck...)
	r.Shuffle(len(opts.Deck), func(i, j int) { opts.Deck[i], opts.Deck[j] = opts.Deck[j], opts.Deck[i] })
	sb := int64(pickI(r, 1, 5, 10, 40))
	opts.Ante = int64(pickI(r, 0, 0, 1, 4, 12))
	opts.Blind = pokerface.BlindSetting{SB: sb, BB: 2 * sb, Dealer: int64(pickI(r, 0, 0, 0, 5, 30))}
	if d.short && r.Intn(2) == 0 {
		opts.Ante = int64(pickI(r, 4, 12))
		opts.Blind = pokerface.BlindSetting{Dealer: 2 * opts.Ante}
	}
	st.GamePlayerIndexes = []int{}
	for gi, pi := range el {
		var pos []string
		switch {
		case gi == 0:
			pos = []string{"dealer"}
			if len(el) == 2 {
				pos = append(pos, "sb")
			}
		case len(el) == 2:
			pos = []string{"bb"}
		case gi == 1:
			pos = []string{"sb"}
		case gi == 2:
			pos = []string{"bb"}
		default:
			pos = []string{"ug"}
		}
		p := st.PlayerStates[pi]
		p.Positions = pos
		p.IsParticipated = true
		st.GamePlayerIndexes = append(st.GamePlayerIndexes, pi)
		opts.Players = append(opts.Players, &pokerface.PlayerSetting{Bankroll: p.Bankroll, Positions: pos})
	}
	gs, err := d.be.CreateGame(opts)
	if err != nil {
		panic(err)
	}
	d.gameN++
	st.GameCount++
	gs.GameID = fmt.Sprintf("%s-g%d", d.T.ID, d.gameN)
	st.Status = pokertable.TableStateStatus_TableGamePlaying
	d.set(gs)
	return true
}

// set takes the next game state, with the group actions pokertable opens for it.
func (d *Deal) set(gs *pokerface.GameState) {
	d.gs = gs
	switch gs.Status.CurrentEvent {
	case "ReadyRequested":
		for _, p := range gs.Players {
			p.AllowAction("ready")
		}
	case "AnteRequested":
		for _, p := range gs.Players {
			p.AllowAction("pay")
		}
	case "BlindsRequested":
		for _, p := range gs.Players {
			if d.due(p.Idx) > 0 {
				p.AllowAction("pay")
			}
		}
	}
	d.touch()
}

func (d *Deal) touch() {
	d.clock += 1 + d.r.Int63n(1000)
	d.gs.UpdatedAt = d.clock
	d.T.State.GameState = d.gs
	d.T.UpdateSerial++
}

// due is the blind the player has to pay.
func (d *Deal) due(gi int) int64 {
	b := d.gs.Meta.Blind
	switch {
	case b.BB > 0 && d.gs.HasPosition(gi, "bb"):
		return b.BB
	case b.SB > 0 && d.gs.HasPosition(gi, "sb"):
		return b.SB
	case b.Dealer > 0 && d.gs.HasPosition(gi, "dealer"):
		return b.Dealer
	}
	return 0
}

func (d *Deal) playerOf(gi int) string {
	return d.T.State.PlayerStates[d.T.State.GamePlayerIndexes[gi]].PlayerID
}

func (d *Deal) allowed(pid string) (int, []string) {
	for gi, pi := range d.T.State.GamePlayerIndexes {
		if d.T.State.PlayerStates[pi].PlayerID == pid {
			return gi, append([]string{}, d.gs.Players[gi].AllowedActions...)
		}
	}
	return -1, nil
}

func (d *Deal) snapshot() *pokertable.Table { return jclone(d.T) }

func jclone(t *pokertable.Table) *pokertable.Table {
	b, err := json.Marshal(t)
	if err != nil {
		panic(err)
	}
	var c pokertable.Table
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return &c
}

// apply plays a single player's move; the engine's verdict is returned and the new state taken over.
func (d *Deal) apply(gi int, m Move) error {
	if d.gs.Status.CurrentPlayer != gi {
		return fmt.Errorf("not the player's turn")
	}
	var gs *pokerface.GameState
	var err error
	switch m.Kind {
	case "pass":
		gs, err = d.be.Pass(d.gs)
	case "fold":
		gs, err = d.be.Fold(d.gs)
	case "check":
		gs, err = d.be.Check(d.gs)
	case "call":
		gs, err = d.be.Call(d.gs)
	case "allin":
		gs, err = d.be.Allin(d.gs)
	case "bet":
		gs, err = d.be.Bet(d.gs, m.Chips)
	case "raise":
		gs, err = d.be.Raise(d.gs, m.Chips)
	default:
		return fmt.Errorf("no such move")
	}
	if err != nil {
		return err
	}
	gs.GameID = d.gs.GameID
	d.set(gs)
	return nil
}

// group says whether the state waits for several players at once.
func (d *Deal) group() bool {
	switch d.gs.Status.CurrentEvent {
	case "ReadyRequested", "AnteRequested", "BlindsRequested":
		return true
	}
	return false
}

// advance goes on after a group has answered or a round has closed.
func (d *Deal) advance() {
	id := d.gs.GameID
	var gs *pokerface.GameState
	var err error
	switch d.gs.Status.CurrentEvent {
	case "ReadyRequested":
		gs, err = d.be.ReadyForAll(d.gs)
	case "AnteRequested":
		gs, err = d.be.PayAnte(d.gs)
	case "BlindsRequested":
		gs, err = d.be.PayBlinds(d.gs)
	case "RoundClosed":
		gs, err = d.be.Next(d.gs)
	default:
		err = fmt.Errorf("cannot advance from %s", d.gs.Status.CurrentEvent)
	}
	if err != nil {
		panic(fmt.Sprintf("%s: %v", d.gs.Status.CurrentEvent, err))
	}
	gs.GameID = id
	d.set(gs)
}

// settle takes the result over.
func (d *Deal) settle() {
	st := d.T.State
	for _, p := range d.gs.Result.Players {
		st.PlayerStates[st.GamePlayerIndexes[p.Idx]].Bankroll = p.Final
	}
	st.Status = pokertable.TableStateStatus_TableGameSettled
	d.T.UpdateSerial++
}

func (d *Deal) standby() {
	st := d.T.State
	st.Status = pokertable.TableStateStatus_TableGameStandby
	st.GamePlayerIndexes = []int{}
	st.GameState = nil
	for _, p := range st.PlayerStates {
		p.Positions = []string{}
		p.IsParticipated = false
	}
	d.T.UpdateSerial++
}
