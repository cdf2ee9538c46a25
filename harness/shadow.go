package vh

// Hidden state a specification of the competition needs besides what is
// published: pending timers, what was already settled, the placement queue.

import (
	"math"
	"time"

	"github.com/weedbox/pokertable"
)

type Timer struct {
	At    time.Time
	Seq   int
	Kind  string // level | startAt | disable | ctEnd | resume | lapse | close | emit
	Table string
	Level int
	IDs   []string
}

type Shadow struct {
	Started      bool
	Closed       bool
	RegOn        bool
	Waiting      []string
	Refunded     bool // a player of the placement queue was refunded
	Settled      map[string]bool
	Break        map[string]bool // table|level with a registered resume
	Timers       []*Timer
	Seq          int
	BlindStarted bool
	BlindEnded   bool
	InitLevel    int
	Reg          *Reg
	Ledger       int64
	Ranked       map[string]int // knock-outs and final ranks announced, per player
	NStarted     int
	NSettledEv   int
	NActivated   int
	AdvAsked     int
	AdvAnswer    int
}

func (s *Shadow) clone() *Shadow {
	c := *s
	c.Waiting = cpStrs(s.Waiting)
	c.Settled = map[string]bool{}
	for k, v := range s.Settled {
		c.Settled[k] = v
	}
	c.Break = map[string]bool{}
	for k, v := range s.Break {
		c.Break[k] = v
	}
	c.Timers = append([]*Timer(nil), s.Timers...)
	if s.Reg != nil {
		c.Reg = s.Reg.clone()
	}
	c.Ranked = map[string]int{}
	for k, v := range s.Ranked {
		c.Ranked[k] = v
	}
	return &c
}

func (s *Shadow) add(t *Timer) {
	s.Seq++
	t.Seq = s.Seq
	s.Timers = append(s.Timers, t)
}

// take removes and returns the timers due at or before now.
func (s *Shadow) take(now time.Time) []*Timer {
	var due, rest []*Timer
	for _, t := range s.Timers {
		if !t.At.After(now) {
			due = append(due, t)
		} else {
			rest = append(rest, t)
		}
	}
	s.Timers = rest
	return due
}

func (s *Shadow) next() (time.Time, bool) {
	var m time.Time
	ok := false
	for _, t := range s.Timers {
		if !ok || t.At.Before(m) {
			m, ok = t.At, true
		}
	}
	return m, ok
}

// ---- Reg: the table regulator of the pinned pokerface library, with the one
// choice it leaves to map iteration (which table in need is served first)
// resolved by what was observed.

type regTable struct {
	ID          string
	PlayerCount int
	Required    int
}

type Reg struct {
	Max, MinInit int
	PlayerCount  int
	TableCount   int
	Status       int // 0 pending 1 normal 2 after deadline
	Queue        []string
	Tables       map[string]*regTable
}

func NewReg(max, min int) *Reg {
	return &Reg{Max: max, MinInit: min, Tables: map[string]*regTable{}}
}

func (r *Reg) clone() *Reg {
	c := *r
	c.Queue = cpStrs(r.Queue)
	c.Tables = map[string]*regTable{}
	for k, t := range r.Tables {
		x := *t
		c.Tables[k] = &x
	}
	return &c
}

// regEnv is how the regulator reaches tables.
type regEnv struct {
	create func(players []string) (string, bool)
	assign func(table string, players []string)
	pick   func(candidates map[string]int) string // a table with Required > 0, as observed
}

func (r *Reg) lowCount() int {
	req := int(math.Ceil(float64(r.PlayerCount) / float64(r.Max)))
	wl := int(math.Floor(float64(r.PlayerCount) / float64(req)))
	n := 0
	for _, t := range r.Tables {
		if t.PlayerCount < wl {
			n++
		}
	}
	return n
}

func (r *Reg) lowerWater() float64 {
	req := int(math.Ceil(float64(r.PlayerCount) / float64(r.Max)))
	wl := int(math.Floor(float64(r.PlayerCount) / float64(req)))
	n := 0
	pcnt := r.PlayerCount
	for _, t := range r.Tables {
		if t.PlayerCount <= wl {
			n++
			continue
		}
		pcnt -= t.PlayerCount
	}
	return float64(pcnt) / float64(n)
}

func (r *Reg) pop(n int) []string {
	out := []string{}
	for i := 0; i < n && len(r.Queue) > 0; i++ {
		out = append(out, r.Queue[0])
		r.Queue = r.Queue[1:]
	}
	return out
}

// dispatch returns the remaining candidates and false when no table needs players.
func (r *Reg) dispatch(players []string, e *regEnv) ([]string, bool) {
	cand := map[string]int{}
	for id, t := range r.Tables {
		if t.Required > 0 {
			cand[id] = t.Required
		}
	}
	if len(cand) == 0 {
		return players, false
	}
	t := r.Tables[e.pick(cand)]
	picked := players
	rest := []string{}
	if t.Required < len(players) {
		picked = players[:t.Required]
		rest = players[t.Required:]
	}
	e.assign(t.ID, picked)
	t.Required -= len(picked)
	t.PlayerCount += len(picked)
	return rest, true
}

func (r *Reg) allocate(e *regEnv) {
	req := int(math.Ceil(float64(r.PlayerCount) / float64(r.Max)))
	wl := r.Max
	if r.TableCount == 0 {
		if r.PlayerCount < r.MinInit {
			return
		}
		x := int(math.Floor(float64(r.PlayerCount) / float64(req)))
		if x >= r.MinInit {
			wl = x
		} else {
			req = int(math.Floor(float64(r.PlayerCount) / float64(r.Max)))
		}
	} else {
		wl = int(math.Floor(float64(r.PlayerCount) / float64(req)))
	}
	for wl >= r.MinInit && r.TableCount < req {
		need := wl
		if len(r.Queue) > wl && len(r.Queue) < r.Max {
			need = len(r.Queue)
		}
		ps := r.pop(need)
		if len(ps) == 0 {
			return
		}
		id, ok := e.create(ps)
		if !ok {
			return
		}
		t := &regTable{ID: id, PlayerCount: len(ps)}
		r.TableCount++
		if len(ps) < wl {
			t.Required = wl - len(ps)
		}
		r.Tables[id] = t
		exp := req - r.TableCount
		wl = int(math.Floor(float64(len(r.Queue)) / float64(exp)))
	}
}

func (r *Reg) requirements() {
	req := int(math.Ceil(float64(r.PlayerCount) / float64(r.Max)))
	if req == len(r.Tables) {
		wl := int(math.Ceil(float64(r.PlayerCount) / float64(req)))
		for _, t := range r.Tables {
			if t.PlayerCount < wl {
				t.Required = wl - t.PlayerCount
			}
		}
	}
}

func (r *Reg) drain(e *regEnv) {
	if r.TableCount == 0 && len(r.Queue) >= r.MinInit {
		r.allocate(e)
		return
	}
	if r.TableCount > 0 {
		cand := r.Queue
		ok := true
		for len(cand) > 0 && ok {
			cand, ok = r.dispatch(cand, e)
		}
		if len(cand) > 0 {
			r.requirements()
		}
		ok = true
		for len(cand) > 0 && ok {
			cand, ok = r.dispatch(cand, e)
		}
		r.Queue = cand
		if len(cand) > 0 {
			r.allocate(e)
		}
	}
}

func (r *Reg) SetStatus(st int, e *regEnv) {
	if r.Status == st {
		return
	}
	old := r.Status
	r.Status = st
	if old == 0 && st == 1 {
		r.drain(e)
	}
}

func (r *Reg) Add(ps []string, e *regEnv) bool {
	if r.Status == 2 {
		return false
	}
	r.PlayerCount += len(ps)
	r.requirements()
	r.enter(ps, e)
	return true
}

func (r *Reg) enter(ps []string, e *regEnv) {
	r.Queue = append(cpStrs(r.Queue), ps...)
	if r.Status == 0 {
		return
	}
	r.drain(e)
}

// Sync returns (release count, new players, known).
func (r *Reg) Sync(id string, out int) (int, []string, bool) {
	t, ok := r.Tables[id]
	if !ok {
		return 0, nil, false
	}
	r.PlayerCount -= out
	t.PlayerCount -= out
	req := int(math.Ceil(float64(r.PlayerCount) / float64(r.Max)))
	if r.Status == 2 && r.PlayerCount <= r.Max && req < r.TableCount {
		delete(r.Tables, id)
		r.TableCount--
		return t.PlayerCount, nil, true
	}
	wl := float64(r.PlayerCount) / float64(req)
	if float64(t.PlayerCount) < wl {
		if r.lowCount() >= 2 && req < r.TableCount {
			delete(r.Tables, id)
			r.TableCount--
			return t.PlayerCount, nil, true
		}
		n := int(math.Floor(wl)) - t.PlayerCount
		ps := r.pop(n)
		if n-len(ps) > 0 {
			t.Required = n - len(ps)
		}
		t.PlayerCount += len(ps)
		return 0, ps, true
	}
	if float64(t.PlayerCount) > wl {
		n := t.PlayerCount - int(math.Floor(wl))
		picked := 0
		for i := 0; i < n; i++ {
			if r.lowerWater() >= math.Floor(wl) {
				break
			}
			picked++
			t.PlayerCount--
		}
		return picked, nil, true
	}
	return 0, nil, true
}

func statusIn(s pokertable.TableStateStatus, l ...pokertable.TableStateStatus) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
