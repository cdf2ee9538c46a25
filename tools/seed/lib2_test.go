package demo

import (
	"encoding/json"
	"fmt"

	"github.com/weedbox/pokercompetition/actor"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokertable"
)

func jsonUnmarshal(s string, v interface{}) error { return json.Unmarshal([]byte(s), v) }

// pit is an actor's table that records the moves made at it.
type pit struct {
	moves  []string
	during func(move string) error
	a      actor.Actor
	t      *pokertable.Table
}

func (p *pit) rec(f string, a ...interface{}) error {
	m := fmt.Sprintf(f, a...)
	p.moves = append(p.moves, m)
	if p.during != nil {
		return p.during(m)
	}
	return nil
}
func (p *pit) SetActor(a actor.Actor)                     { p.a = a }
func (p *pit) UpdateTableState(t *pokertable.Table) error { p.t = t; return p.a.UpdateTableState(t) }
func (p *pit) GetGamePlayerIndex(id string) int           { return p.t.GamePlayerIndex(id) }
func (p *pit) GetGameState() *pokerface.GameState         { return p.t.State.GameState }
func (p *pit) GetTableState() *pokertable.Table           { return p.t }
func (p *pit) Pass(id string) error                       { return p.rec("pass %s", id) }
func (p *pit) Ready(id string) error                      { return p.rec("ready %s", id) }
func (p *pit) Pay(id string, n int64) error               { return p.rec("pay %s %d", id, n) }
func (p *pit) Check(id string) error                      { return p.rec("check %s", id) }
func (p *pit) Bet(id string, n int64) error               { return p.rec("bet %s %d", id, n) }
func (p *pit) Call(id string) error                       { return p.rec("call %s", id) }
func (p *pit) Fold(id string) error                       { return p.rec("fold %s", id) }
func (p *pit) Allin(id string) error                      { return p.rec("allin %s", id) }
func (p *pit) Raise(id string, n int64) error             { return p.rec("raise %s %d", id, n) }
func (p *pit) ShowCard(id string, c []string) error       { return nil }
func (p *pit) AutoMode(id string, on bool) error          { return nil }

// sit puts a runner at a table of its own.
func sit(r actor.Runner) *pit {
	p := &pit{}
	a := actor.NewActor()
	a.SetAdapter(p)
	a.SetRunner(r)
	return p
}

// turn is a running hand of p0, p1 and p2 in which player cur may make the given moves.
func turn(gameID string, at int64, round string, cur int, allowed ...string) *pokertable.Table {
	gs := &pokerface.GameState{GameID: gameID, UpdatedAt: at, Meta: pokerface.Meta{Ante: 1, Blind: pokerface.BlindSetting{SB: 5, BB: 10}, Deck: []string{"S2", "S3", "S4"}},
		Status: pokerface.Status{MiniBet: 10, Round: round, CurrentEvent: "RoundStarted", CurrentPlayer: cur, CurrentWager: 10, PreviousRaiseSize: 10, Burned: []string{"D9"}}}
	t := &pokertable.Table{ID: "t1", Meta: pokertable.TableMeta{ActionTime: 10}, State: &pokertable.TableState{Status: pokertable.TableStateStatus_TableGamePlaying, GameCount: 1, GameState: gs}}
	for i, pos := range []string{"dealer", "sb", "bb"} {
		p := &pokerface.PlayerState{Idx: i, Positions: []string{pos}, Bankroll: 1000, InitialStackSize: 1000, StackSize: 1000, HoleCards: []string{fmt.Sprintf("H%d", 2+i), fmt.Sprintf("C%d", 2+i)},
			Combination: &pokerface.CombinationInfo{Type: "Pair", Power: 1}}
		if i == cur {
			p.AllowedActions = allowed
		}
		gs.Players = append(gs.Players, p)
		t.State.PlayerStates = append(t.State.PlayerStates, &pokertable.TablePlayerState{PlayerID: fmt.Sprintf("p%d", i), Seat: i, IsIn: true, IsParticipated: true, Bankroll: 1000})
		t.State.GamePlayerIndexes = append(t.State.GamePlayerIndexes, i)
	}
	return t
}
