package vh

// Concurrent registrations (C31): several buy-ins, re-buys, add-ons and refunds are issued at the
// same moment from goroutines of their own; what came of them must equal the specification applied
// to them one after the other in some order (a linearizability check against the trace
// specification), and the race detector watches the engine while they run.

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
)

// safeBackend serialises what the engine asks of the tables and disturbs the timing.
type safeBackend struct {
	*Backend
	mu     sync.Mutex
	active atomic.Int32
	seed   atomic.Uint64
	calls  atomic.Int64
}

// jitter gives other goroutines a chance to get in between.
func (s *safeBackend) jitter() {
	if s.active.Load() == 0 {
		return
	}
	x := s.seed.Add(0x9E3779B97F4A7C15)
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	switch x % 4 {
	case 0:
	case 1:
		runtime.Gosched()
	default:
		for i := uint64(0); i < (x>>8)%6; i++ {
			for j := 0; j < int((x>>16)%400); j++ {
				s.calls.Load()
			}
			runtime.Gosched()
		}
	}
}

func (s *safeBackend) in() func() {
	s.calls.Add(1)
	s.jitter()
	s.mu.Lock()
	return func() {
		s.mu.Unlock()
		s.jitter()
	}
}

func (s *safeBackend) CreateTable(o *pokertable.TableEngineOptions, t pokertable.TableSetting) (*pokertable.Table, error) {
	defer s.in()()
	return s.Backend.CreateTable(o, t)
}
func (s *safeBackend) PauseTable(id string) error { defer s.in()(); return s.Backend.PauseTable(id) }
func (s *safeBackend) CloseTable(id string) error { defer s.in()(); return s.Backend.CloseTable(id) }
func (s *safeBackend) StartTableGame(id string) error {
	defer s.in()()
	return s.Backend.StartTableGame(id)
}
func (s *safeBackend) SetUpTableGame(id string, gc int, p map[string]int) error {
	defer s.in()()
	return s.Backend.SetUpTableGame(id, gc, p)
}
func (s *safeBackend) UpdateBlind(id string, l int, a, d, sb, bb int64) error {
	defer s.in()()
	return s.Backend.UpdateBlind(id, l, a, d, sb, bb)
}
func (s *safeBackend) UpdateTablePlayers(id string, j []pokertable.JoinPlayer, l []string) (map[string]int, error) {
	defer s.in()()
	return s.Backend.UpdateTablePlayers(id, j, l)
}
func (s *safeBackend) PlayerReserve(id string, j pokertable.JoinPlayer) error {
	defer s.in()()
	return s.Backend.PlayerReserve(id, j)
}
func (s *safeBackend) PlayerJoin(id, p string) error {
	defer s.in()()
	return s.Backend.PlayerJoin(id, p)
}
func (s *safeBackend) PlayerRedeemChips(id string, j pokertable.JoinPlayer) error {
	defer s.in()()
	return s.Backend.PlayerRedeemChips(id, j)
}
func (s *safeBackend) PlayersLeave(id string, ids []string) error {
	defer s.in()()
	return s.Backend.PlayersLeave(id, ids)
}
func (s *safeBackend) ReleaseTable(id string) error {
	defer s.in()()
	return s.Backend.ReleaseTable(id)
}

// concReq is one of the requests issued together.
type concReq struct {
	kind string // buyin | addon | refund
	j    pc.JoinPlayer
	tid  string
	err  error
	done int64 // order of return
}

func (q *concReq) String() string {
	e := ""
	if q.err != nil {
		e = "!"
	}
	return fmt.Sprintf("%s(%s,%d)%s", q.kind, q.j.PlayerID, q.j.RedeemChips, e)
}

func (q *concReq) run(ce pc.CompetitionEngine) {
	switch q.kind {
	case "buyin":
		q.err = ce.PlayerBuyIn(q.j)
	case "addon":
		q.err = ce.PlayerAddon(q.tid, q.j)
	case "refund":
		q.err = ce.PlayerRefund(q.j.PlayerID)
	}
}

func (q *concReq) spec(s *Spec) {
	switch q.kind {
	case "buyin":
		s.buyIn(q.j, q.err)
	case "addon":
		s.addon(q.tid, q.j, q.err)
	case "refund":
		s.refund(q.j.PlayerID, q.err)
	}
}

// concBatch draws requests that get in each other's way.
func (w *World) concBatch() []*concReq {
	r := w.rng
	c := w.cur
	mode := c.Meta.Mode
	var newIDs, waiting, chipped []string
	for _, id := range w.pool {
		if findP(c, id) == nil {
			newIDs = append(newIDs, id)
		}
	}
	r.Shuffle(len(newIDs), func(i, j int) { newIDs[i], newIDs[j] = newIDs[j], newIDs[i] })
	for _, p := range c.State.Players {
		if p.Status == pc.CompetitionPlayerStatus_ReBuyWaiting {
			waiting = append(waiting, p.PlayerID)
		}
		if p.Chips > 0 && p.Status != pc.CompetitionPlayerStatus_CashLeaving {
			chipped = append(chipped, p.PlayerID)
		}
	}
	free := 1 << 30
	if mode == cash {
		free = 0
		if len(w.tables()) > 0 {
			free = len(w.be.freeSeats(w.tables()[0]))
		}
	}
	fresh := map[string]bool{}
	var out []*concReq
	big := r.Intn(4) == 0 && mode != mtt
	n := 2 + r.Intn(4)
	if big {
		n = 6 + r.Intn(7)
	}
	focus := r.Intn(3) // 0: anything, 1: one player is in the focus, 2: capacity
	for len(out) < n {
		k := r.Intn(10)
		q := &concReq{j: pc.JoinPlayer{RedeemChips: w.chips(), Unit: pickI(r, 1, 1, 2)}}
		switch {
		case k < 5 || focus == 2:
			q.kind = "buyin"
			var id string
			if focus == 1 && len(out) > 0 && r.Intn(2) == 0 {
				id = out[0].j.PlayerID
			} else if len(waiting) > 0 && r.Intn(3) == 0 {
				id = waiting[r.Intn(len(waiting))]
			} else if len(newIDs) > 0 {
				id = newIDs[r.Intn(min(len(newIDs), n))]
			} else {
				return out
			}
			p := findP(c, id)
			if mode == cash {
				seated := w.seatedAt(id) != nil
				if big && fresh[id] {
					// which of two first buy-ins came first shows, and there are too many orders to try them all
					n--
					continue
				}
				if !seated && !fresh[id] {
					if len(fresh) >= free {
						n--
						continue
					}
					fresh[id] = true
				}
				if ft := w.handOf(id); ft != nil && inHand(ft) {
					n--
					continue
				}
				if p != nil && p.Status == pc.CompetitionPlayerStatus_CashLeaving {
					n--
					continue
				}
			}
			q.j.PlayerID = id
		case k < 8:
			q.kind = "addon"
			if len(chipped) == 0 {
				n--
				continue
			}
			id := chipped[r.Intn(len(chipped))]
			if focus == 1 {
				id = chipped[0]
			}
			ft := w.seatedAt(id)
			if ft == nil || (inHand(ft) && w.handOf(id) != nil) {
				n--
				continue
			}
			q.j.PlayerID, q.tid = id, ft.T.ID
		default:
			if mode == cash || big {
				n--
				continue
			}
			q.kind = "refund"
			if len(c.State.Players) == 0 && len(out) == 0 {
				n--
				continue
			}
			if len(out) > 0 && r.Intn(2) == 0 {
				q.j.PlayerID = out[r.Intn(len(out))].j.PlayerID
			} else if len(c.State.Players) > 0 {
				q.j.PlayerID = c.State.Players[r.Intn(len(c.State.Players))].PlayerID
			} else {
				q.j.PlayerID = out[0].j.PlayerID
			}
		}
		out = append(out, q)
	}
	return out
}

// orders lists the sequential orders to try, the likely ones first.
func concOrders(qs []*concReq, got *pc.Competition) [][]int {
	idx := make([]int, len(qs))
	for i := range idx {
		idx[i] = i
	}
	first := append([]int{}, idx...)
	sort.SliceStable(first, func(a, b int) bool { return qs[first[a]].done < qs[first[b]].done })
	out := [][]int{first}
	// accepted requests first: without refunds, a refusal stays right when it is moved behind them
	acc := append([]int{}, first...)
	sort.SliceStable(acc, func(a, b int) bool { return qs[acc[a]].err == nil && qs[acc[b]].err != nil })
	out = append(out, acc)
	if len(qs) > 5 {
		return out
	}
	var rec func(a []int, used int)
	rec = func(a []int, used int) {
		if len(a) == len(first) {
			out = append(out, append([]int{}, a...))
			return
		}
		for i, x := range first {
			if used&(1<<i) == 0 {
				rec(append(a, x), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return out
}

func (w *World) opConc() {
	w.drain(true)
	if w.stop() || w.sb == nil {
		return
	}
	qs := w.concBatch()
	if len(qs) < 2 {
		return
	}
	var ctr atomic.Int64
	var desc []string
	for _, q := range qs {
		desc = append(desc, q.kind+" "+q.j.PlayerID)
	}
	refunds := false
	for _, q := range qs {
		refunds = refunds || q.kind == "refund"
	}
	act := func() {
		w.sb.active.Store(1)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for _, q := range qs {
			wg.Add(1)
			go func(q *concReq) {
				defer wg.Done()
				<-start
				w.guard("concurrent "+q.kind, func() { q.run(w.ce) })
				q.done = ctr.Add(1)
			}(q)
		}
		close(start)
		wg.Wait()
		w.sb.active.Store(0)
	}
	// the orders depend on what came back: they are made lazily
	var orders [][]int
	var alts []specFn
	mk := func(k int) specFn {
		return func(s *Spec) {
			if orders == nil {
				orders = concOrders(qs, s.got)
			}
			if k >= len(orders) {
				s.bad(P("C31"), "no further order")
				return
			}
			if refunds {
				s.rankComparable = false
			}
			s.seen = map[string]int{}
			for _, i := range orders[k] {
				qs[i].spec(s)
			}
			s.seen = nil
			var sig []string
			for _, q := range qs {
				x := q.kind
				if q.err != nil {
					x += "!"
				}
				sig = append(sig, x)
			}
			sort.Strings(sig)
			s.hit("C31", "%s:%s:same%v", s.preC.State.Status, strings.Join(sig, ","), sameTarget(qs))
			if k > 1 {
				s.hit("C31", "reordered")
			}
		}
	}
	k := 2
	if len(qs) <= 5 {
		f := 1
		for i := 2; i <= len(qs); i++ {
			f *= i
		}
		k += f
	}
	for i := 0; i < k; i++ {
		alts = append(alts, mk(i))
	}
	w.nConc++
	w.step("conc", P("C31", "C05", "C06", "C07", "C08"), strings.Join(desc, " | "), act, alts...)
}

func sameTarget(qs []*concReq) bool {
	m := map[string]bool{}
	for _, q := range qs {
		if m[q.j.PlayerID] {
			return true
		}
		m[q.j.PlayerID] = true
	}
	return false
}

func concCase(res *Result, idx int, r *rand.Rand) {
	prof := generalProfile()
	prof.Steps = 110
	prof.Bust = []float64{0, 0.6}[r.Intn(2)]
	prof.W = map[string]int{"conc": 40, "buyin": 4, "rebuy": 2, "refund": 1}
	mode := []pcMode{ct, ct, mtt, cash}[r.Intn(4)]
	set := genSetting(r, mode, fmt.Sprintf("c%d", idx))
	if r.Intn(2) == 0 {
		set.DisableAt += 300
		longLevels(r, &set)
		set.Meta.Blind.FinalBuyInLevelIndex = pc.NoStopBuyInIndex
	}
	for i := range set.Meta.Blind.Levels {
		if r.Intn(3) > 0 {
			set.Meta.Blind.Levels[i].AllowAddon = true
		}
	}
	set.Meta.AddonSetting.IsBreakOnly = r.Intn(5) == 0
	set.Meta.AddonSetting.MaxTime = 1 + r.Intn(3)
	if mode != cash {
		set.Meta.ReBuySetting = pc.ReBuySetting{MaxTime: 1 + r.Intn(3), WaitingTime: pickI(r, 5, 10, 20)}
	}
	w := newWorld(r, prof, set)
	w.useSafe()
	w.run(prof.Steps)
	res.add(idx, w, string(mode))
	res.Extra["concurrent_batches"] += w.nConc
}

// useSafe rebuilds the engine over the serialising backend.
func (w *World) useSafe() {
	w.sb = &safeBackend{Backend: w.be}
	w.sb.seed.Store(w.rng.Uint64())
	w.ce = pc.NewCompetitionEngine(pc.WithTableManagerBackend(w.sb), pc.WithTableOptions(w.opts))
	w.hook()
}

func init() {
	workloads["C31"] = func(res *Result) {
		for _, idx := range cases() {
			mark(idx)
			concCase(res, idx, caseRand(vhProp, idx))
			if res.NViol >= 40 {
				break
			}
		}
	}
}
