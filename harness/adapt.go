package vh

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/weedbox/pokercompetition/actor"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokertable"
)

func init() { workloads["C39"] = caseWorkload(adapterCase) }

// recEngine is a table engine that only records the moves made at it. Any other command is a
// nil dereference, which the case reports.
type recEngine struct {
	pokertable.TableEngine
	calls []string
	err   error
}

func (e *recEngine) rec(m, p string, n int64) error {
	e.calls = append(e.calls, fmt.Sprintf("%s %s %d", m, p, n))
	return e.err
}
func (e *recEngine) PlayerReady(p string) error          { return e.rec("ready", p, 0) }
func (e *recEngine) PlayerPass(p string) error           { return e.rec("pass", p, 0) }
func (e *recEngine) PlayerPay(p string, n int64) error   { return e.rec("pay", p, n) }
func (e *recEngine) PlayerCheck(p string) error          { return e.rec("check", p, 0) }
func (e *recEngine) PlayerBet(p string, n int64) error   { return e.rec("bet", p, n) }
func (e *recEngine) PlayerCall(p string) error           { return e.rec("call", p, 0) }
func (e *recEngine) PlayerFold(p string) error           { return e.rec("fold", p, 0) }
func (e *recEngine) PlayerAllin(p string) error          { return e.rec("allin", p, 0) }
func (e *recEngine) PlayerRaise(p string, n int64) error { return e.rec("raise", p, n) }

// recRunner records what an actor shows it.
type recRunner struct {
	a      actor.Actor
	shown  []*pokertable.Table
	err    error
	pause  int
	inside int32
	over   int32
}

func (r *recRunner) SetActor(a actor.Actor) { r.a = a }
func (r *recRunner) UpdateTableState(t *pokertable.Table) error {
	if atomic.AddInt32(&r.inside, 1) > 1 {
		atomic.StoreInt32(&r.over, 1)
	}
	for i := 0; i < r.pause; i++ {
		runtime.Gosched() // not a sleep: the simulated clock stands still while a mutex is held
	}
	r.shown = append(r.shown, t)
	atomic.AddInt32(&r.inside, -1)
	return r.err
}

// fill gives every exported field that survives JSON a random value.
func fill(r *rand.Rand, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if depth > 0 && r.Intn(12) > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			fill(r, v.Elem(), depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" && f.Tag.Get("json") != "-" {
				fill(r, v.Field(i), depth)
			}
		}
	case reflect.Slice:
		n := r.Intn(4)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			if e := v.Index(i); e.Kind() == reflect.Ptr {
				e.Set(reflect.New(e.Type().Elem()))
				fill(r, e.Elem(), depth-1)
			} else {
				fill(r, e, depth-1)
			}
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for n := r.Intn(3); n > 0; n-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			fill(r, k, depth-1)
			fill(r, e, depth-1)
			v.SetMapIndex(k, e)
		}
	case reflect.String:
		v.SetString(pickS(r, "", "a", "b", "玩家", "x\"y", "\\n", "ab c") + fmt.Sprint(r.Intn(1000)))
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		x := r.Int63n(2001) - 1000
		if v.Kind() == reflect.Int64 && r.Intn(5) == 0 {
			x = r.Int63() - r.Int63()
		}
		if v.Kind() == reflect.Int8 {
			x %= 100
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		v.SetUint(uint64(r.Intn(200)))
	case reflect.Float64, reflect.Float32:
		v.SetFloat(float64(r.Intn(4000)-2000) / 8)
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	}
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

// anyTable makes a table with players p0..p5, some of them dealt in.
func anyTable(r *rand.Rand) *pokertable.Table {
	t := &pokertable.Table{}
	fill(r, reflect.ValueOf(t).Elem(), 6)
	if t.State == nil {
		t.State = &pokertable.TableState{}
	}
	t.State.PlayerStates, t.State.GamePlayerIndexes = nil, nil
	for _, i := range r.Perm(6)[:r.Intn(7)] {
		p := &pokertable.TablePlayerState{}
		fill(r, reflect.ValueOf(p).Elem(), 4)
		p.PlayerID = fmt.Sprintf("p%d", i)
		t.State.PlayerStates = append(t.State.PlayerStates, p)
	}
	for _, i := range r.Perm(len(t.State.PlayerStates)) {
		if r.Intn(3) > 0 {
			t.State.GamePlayerIndexes = append(t.State.GamePlayerIndexes, i)
		}
	}
	if r.Intn(4) == 0 {
		t.State.GameState = nil
	} else if t.State.GameState == nil {
		t.State.GameState = &pokerface.GameState{GameID: fmt.Sprint(r.Intn(1000))}
	}
	return t
}

func dealtIndex(t *pokertable.Table, id string) int {
	for g, i := range t.State.GamePlayerIndexes {
		if i < len(t.State.PlayerStates) && t.State.PlayerStates[i].PlayerID == id {
			return g
		}
	}
	return -1
}

// actorBox is one actor with its adapter, engine and runner.
type actorBox struct {
	a    actor.Actor
	tea  actor.Adapter
	eng  *recEngine
	run  *recRunner
	last string // JSON of the table it was shown last
	acts map[string]actor.Actions
}

// adapterCase drives actors over the table engine adapter.
func adapterCase(c *Case) string {
	r := c.r
	defer func() {
		if p := recover(); p != nil {
			c.fail("panic: %v", p)
		}
	}()
	var boxes []*actorBox
	for k := 1 + r.Intn(3); k > 0; k-- {
		t := anyTable(r)
		b := &actorBox{a: actor.NewActor(), eng: &recEngine{}, run: &recRunner{}, last: js(t), acts: map[string]actor.Actions{}}
		b.tea = actor.NewTableEngineAdapter(b.eng, t)
		if r.Intn(2) == 0 {
			c.ok(b.a.SetAdapter(b.tea) == nil, "the adapter is refused")
			c.ok(b.a.SetRunner(b.run) == nil, "the runner is refused")
		} else {
			c.ok(b.a.SetRunner(b.run) == nil, "the runner is refused")
			c.ok(b.a.SetAdapter(b.tea) == nil, "the adapter is refused")
		}
		c.ok(b.run.a == b.a, "the runner does not know its actor")
		c.ok(b.a.GetTable() == b.tea, "the actor does not know its table")
		c.ok(b.a.GetRunner() == actor.Runner(b.run), "the actor does not know its runner")
		boxes = append(boxes, b)
	}
	look := func(b *actorBox, when string) {
		c.ok(js(b.tea.GetTableState()) == b.last, "%s: the table is not the one shown last", when)
		var t pokertable.Table
		json.Unmarshal([]byte(b.last), &t)
		c.ok(js(b.tea.GetGameState()) == js(t.State.GameState), "%s: the game is not that of the table shown last", when)
		for i := 0; i < 7; i++ {
			id := fmt.Sprintf("p%d", i)
			if got, want := b.tea.GetGamePlayerIndex(id), dealtIndex(&t, id); got != want {
				c.fail("%s: %s has game index %d, expected %d", when, id, got, want)
			}
		}
	}
	for n := 20 + r.Intn(30); n > 0; n-- {
		c.steps++
		b := boxes[r.Intn(len(boxes))]
		counts := make([]int, len(boxes))
		seen := make([]int, len(boxes))
		for i, x := range boxes {
			counts[i], seen[i] = len(x.eng.calls), len(x.run.shown)
		}
		var mine, shown int
		switch k := r.Intn(10); {
		case k < 6: // a move
			id := fmt.Sprintf("p%d", r.Intn(7))
			chips := r.Int63n(1000)
			if r.Intn(4) == 0 {
				chips = r.Int63() - r.Int63()
			}
			b.eng.err = nil
			if r.Intn(3) == 0 {
				b.eng.err = fmt.Errorf("refused %d", r.Intn(100))
			}
			via := b.acts[id]
			if via == nil || r.Intn(4) == 0 {
				via = actor.NewActions(b.a, id)
				b.acts[id] = via
			}
			direct := r.Intn(3) == 0
			type mv struct {
				name string
				n    int64
				a    func() error
				t    func() error
			}
			ms := []mv{
				{"ready", 0, via.Ready, func() error { return b.tea.Ready(id) }},
				{"pass", 0, via.Pass, func() error { return b.tea.Pass(id) }},
				{"pay", chips, func() error { return via.Pay(chips) }, func() error { return b.tea.Pay(id, chips) }},
				{"check", 0, via.Check, func() error { return b.tea.Check(id) }},
				{"bet", chips, func() error { return via.Bet(chips) }, func() error { return b.tea.Bet(id, chips) }},
				{"call", 0, via.Call, func() error { return b.tea.Call(id) }},
				{"fold", 0, via.Fold, func() error { return b.tea.Fold(id) }},
				{"allin", 0, via.Allin, func() error { return b.tea.Allin(id) }},
				{"raise", chips, func() error { return via.Raise(chips) }, func() error { return b.tea.Raise(id, chips) }},
			}
			m := ms[r.Intn(len(ms))]
			var err error
			if direct {
				err = m.t()
			} else {
				err = m.a()
			}
			mine = 1
			want := fmt.Sprintf("%s %s %d", m.name, id, m.n)
			c.log("%s (direct %v, engine error %v) -> %v, %v", want, direct, b.eng.err, b.eng.calls[counts0(boxes, b, counts):], err)
			if got := b.eng.calls[counts0(boxes, b, counts):]; len(got) != 1 || got[0] != want {
				c.fail("move %q became %q", want, got)
			}
			c.ok(err == b.eng.err, "move %q returned %v, the table %v", want, err, b.eng.err)
			c.hit(fmt.Sprintf("%s direct %v refused %v", m.name, direct, b.eng.err != nil))
		case k < 9: // a new state
			t := anyTable(r)
			if r.Intn(8) == 0 { // shows the table it already has
				json.Unmarshal([]byte(b.last), t)
			}
			before := js(t)
			b.run.err = nil
			if r.Intn(4) == 0 {
				b.run.err = errors.New("cannot show")
			}
			err := b.tea.UpdateTableState(t)
			shown = 1
			c.ok(errors.Is(err, b.run.err) || err == b.run.err, "showing a table returned %v, the runner %v", err, b.run.err)
			c.ok(js(t) == before, "showing a table changed it")
			b.last = before
			if len(b.run.shown) != seen[indexOf(boxes, b)]+1 {
				c.fail("the runner was shown %d tables for one", len(b.run.shown)-seen[indexOf(boxes, b)])
			} else {
				got := b.run.shown[len(b.run.shown)-1]
				c.ok(got != nil && js(got) == before, "the runner was shown another table")
				// later changes of the shared table must reach neither the runner nor the adapter
				deface(r, t)
				fill(r, reflect.ValueOf(t).Elem(), 6)
				c.ok(js(got) == before, "the runner's table changes with the shared one")
			}
			look(b, "after an update")
			c.hit(fmt.Sprintf("update err %v", b.run.err != nil))
		case k < 10: // many states at once
			b.run.err, b.run.pause, b.run.over = nil, r.Intn(200), 0
			m := 2 + r.Intn(4)
			done := make(chan struct{}, m)
			var sent []string
			for i := 0; i < m; i++ {
				t := anyTable(r)
				sent = append(sent, js(t))
				d := time.Duration(r.Intn(2)) * time.Millisecond
				go func() {
					time.Sleep(d)
					b.a.UpdateTableState(t)
					done <- struct{}{}
				}()
			}
			for i := 0; i < m; i++ {
				<-done
			}
			b.run.pause = 0
			shown = m
			c.ok(b.run.over == 0, "two table states were shown to one runner at the same time")
			have := map[string]int{}
			for _, t := range b.run.shown[seen[indexOf(boxes, b)]:] {
				have[js(t)]++
			}
			for _, j := range sent {
				if have[j] == 0 {
					c.fail("a table state was not shown to the runner")
				}
				have[j]--
			}
			c.hit(fmt.Sprintf("%d states at once", m))
		}
		for i, x := range boxes {
			w, s := 0, 0
			if x == b {
				w, s = mine, shown
			}
			c.ok(len(x.eng.calls) == counts[i]+w, "%d moves reached table %d, expected %d", len(x.eng.calls)-counts[i], i, w)
			c.ok(len(x.run.shown) == seen[i]+s, "%d states reached runner %d, expected %d", len(x.run.shown)-seen[i], i, s)
			if r.Intn(4) == 0 {
				look(x, "later")
			}
		}
		c.events += shown
		c.cmds += mine
	}
	return "adapter"
}

func indexOf(bs []*actorBox, b *actorBox) int {
	for i, x := range bs {
		if x == b {
			return i
		}
	}
	return -1
}
func counts0(bs []*actorBox, b *actorBox, n []int) int { return n[indexOf(bs, b)] }

// deface overwrites what a table points to, in place.
func deface(r *rand.Rand, t *pokertable.Table) {
	if t.State == nil {
		return
	}
	for _, p := range t.State.PlayerStates {
		if p != nil {
			p.PlayerID, p.Bankroll, p.Seat = "defaced", -7, 99
		}
	}
	for i := range t.State.GamePlayerIndexes {
		t.State.GamePlayerIndexes[i] = 77
	}
	if t.State.GameState != nil {
		t.State.GameState.GameID = "defaced"
		for _, p := range t.State.GameState.Players {
			if p != nil {
				p.StackSize = -7
			}
		}
	}
}
