package vh

import (
	"fmt"
	"math/rand"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
)

// World is one monitored competition on recorded tables.
type World struct {
	rng  *rand.Rand
	prof *Profile
	be   *Backend
	ce   pc.CompetitionEngine
	set  pc.CompetitionSetting
	sh   *Shadow
	cur  *pc.Competition
	ev   *Ev
	opts *pokertable.TableEngineOptions

	serial   int64
	trace    []string
	bad      []Mismatch
	badSteps int
	known    string
	left     map[string]bool // tables left over by the end
	multi    bool            // several timers are due in this step
	hits     map[string]int
	steps    int
	nEvents  int
	nCmds    int

	pool                   []string
	fired                  []*Timer // recently fired, for attribution
	pauseFor               map[string]time.Time
	reports                map[string]*pokertable.Table // every settled report, for repeats
	repKeys                []string
	panicked               atomic.Value
	lastPub                string
	settledAnn, settledDue int
	lastSettled            string // state the last TableGameSettled announcement carried
	settledEnd             int    // announcements of the competition's end
	mtt                    bool
	joint                  func(to time.Time)
	after                  func(op string) // runs at the end of every step
	evMu                   sync.Mutex      // announcements may come from several goroutines (C31)
	sb                     *safeBackend
	nConc                  int
	loose                  bool // no specification: only that calls return and failures are reported (C32)
	inCall                 bool
	listen                 func(kind string) // runs inside every announcement, without the monitor's lock
	ret                    error             // what the running request returned
	rets                   int               // table reports answered with an error (only behind a manager)
	told                   []error           // those errors
	injected               int               // table commands made to fail so far
}

func (w *World) log(f string, a ...interface{}) {
	w.trace = append(w.trace, fmt.Sprintf("%s ", time.Now().UTC().Format("15:04:05.000"))+fmt.Sprintf(f, a...))
}

func (w *World) lockEv(kind string) func() {
	if w.sb != nil {
		w.sb.jitter()
	}
	w.evMu.Lock()
	return func() {
		w.evMu.Unlock()
		if w.listen != nil {
			w.listen(kind)
		}
	}
}

func (w *World) hook() {
	w.ev = &Ev{}
	w.ce.OnCompetitionUpdated(func(c *pc.Competition) {
		defer w.lockEv("upd")()
		w.ev.Serials = append(w.ev.Serials, c.UpdateSerial)
		w.nEvents++
		w.ev.Upd = append(w.ev.Upd, cloneComp(c))
		w.lastPub = pubKey(c)
	})
	w.ce.OnCompetitionErrorUpdated(func(c *pc.Competition, err error) {
		defer w.lockEv("err")()
		w.nEvents++
		if c == nil || c.ID != w.set.CompetitionID || err == nil {
			w.flag(P("C41", "C29"), "an error (%v) was announced without it or its competition", err)
		}
		w.ev.Errs = append(w.ev.Errs, err)
	})
	own := func(what, id string, props ...string) {
		if id != w.set.CompetitionID {
			w.flag(append(props, "C29"), "%s was announced for competition %q", what, id)
		}
	}
	w.ce.OnCompetitionPlayerUpdated(func(id string, p *pc.CompetitionPlayer) {
		defer w.lockEv("player")()
		own("a player", id, "C36")
		w.nEvents++
		w.ev.Players = append(w.ev.Players, clonePlayer(p))
	})
	w.ce.OnCompetitionFinalPlayerRankUpdated(func(id, p string, r int) {
		defer w.lockEv("rank")()
		own("a rank", id, "C14")
		w.nEvents++
		w.ev.Ranks = append(w.ev.Ranks, rankEv{p, r})
	})
	w.ce.OnCompetitionStateUpdated(func(e string, c *pc.Competition) {
		defer w.lockEv("state")()
		w.nEvents++
		w.ev.States = append(w.ev.States, e)
		w.ev.Snaps = append(w.ev.Snaps, takeSnap(c))
		if e == pc.CompetitionStateEvent_TableGameSettled {
			w.lastSettled = pubKey(c)
		}
		if e == pc.CompetitionStateEvent_Settled {
			w.settledEnd++
		}
		if e == pc.CompetitionStateEvent_TableGameSettled {
			w.settledAnn++
		}
	})
	w.ce.OnCompetitionPlayerCashOut(func(id string, p *pc.CompetitionPlayer) {
		defer w.lockEv("cash")()
		own("a pay-out", id, "C28")
		w.nEvents++
		w.ev.Cash = append(w.ev.Cash, clonePlayer(p))
	})
	w.ce.OnAdvancePlayerCountUpdated(func(id string, n int) int {
		defer w.lockEv("adv")()
		own("advancement", id, "C26")
		w.nEvents++
		w.ev.Adv = append(w.ev.Adv, n)
		return w.sh.AdvAnswer
	})
}

// flag records a mismatch found outside a spec.
func (w *World) flag(props []string, f string, a ...interface{}) {
	m := Mismatch{Props: props, What: fmt.Sprintf(f, a...)}
	w.bad = append(w.bad, m)
	w.log("!! %v %s", m.Props, m.What)
}

// guard turns a panic of the engine into a recorded violation.
func (w *World) guard(op string, fn func()) {
	defer func() {
		if r := recover(); r != nil {
			w.panicked.Store(fmt.Sprintf("panic in %s: %v\n%s", op, r, debug.Stack()))
		}
	}()
	fn()
}

func newSpec(w *World, op string, props []string, pre, got *pc.Competition, now time.Time) *Spec {
	s := &Spec{c: cloneComp(pre), preC: pre, got: got, sh: w.sh.clone(), now: now, cmds: w.be.Cmds, used: make([]bool, len(w.be.Cmds)),
		props: props, op: op, multi: w.multi, ret: w.ret, rets: w.rets, told: w.told, freeIDs: map[string]bool{}, touched: map[string]bool{}, freeRank: map[string]bool{}}
	switch op {
	case "refund", "cashout", "quit", "lapse":
	default:
		s.rankComparable = true
	}
	return s
}

type specFn func(s *Spec)

// step runs one action against the engine and evaluates the specification on what happened.
// props: the properties any deviation in this step breaks.
func (w *World) step(op string, props []string, desc string, act func(), alts ...specFn) {
	if w.inCall { // a table's own doing led to another request
		act()
		return
	}
	w.steps++
	progress.Add(1)
	// what happened since the last step belongs to this one
	defer func() {
		w.be.Cmds = nil
		w.ev = &Ev{}
		if w.after != nil {
			w.after(op)
		}
	}()
	nbad := len(w.bad)
	if w.loose {
		w.looseStep(op, desc, act)
		return
	}
	w.ret, w.rets, w.told = nil, 0, nil
	pre := w.cur
	done := true
	if act != nil {
		var fin atomic.Bool
		go func() {
			w.guard(op, act)
			fin.Store(true)
		}()
		synctest.Wait()
		done = fin.Load()
	} else {
		synctest.Wait()
	}
	now := time.Now()
	got := cloneComp(w.ce.GetCompetition())
	if desc != "" {
		w.log("%s %s", op, desc)
	}
	w.nCmds += len(w.be.Cmds)
	for _, c := range w.be.Cmds {
		w.log("   table command %s", c)
	}
	for _, n := range w.ev.Serials {
		// updates of timers due at the very same moment may overtake each other
		if n < w.serial || (n == w.serial && !w.multi) {
			w.flag(P("C36"), "%s: competition update with serial %d after %d", op, n, w.serial)
		}
		w.serial = n
	}
	var best *Spec
	for _, fn := range alts {
		s := newSpec(w, op, props, pre, got, now)
		func() {
			defer func() {
				if r := recover(); r != nil {
					s.bad(nil, "specification failed: %v at %s", r, debug.Stack())
				}
			}()
			fn(s)
			if !done && op != "settled" && op != "dup" {
				s.bad(P("C32"), "the call did not return")
			}
			s.finish(w.ev)
		}()
		if best == nil || len(s.mm) < len(best.mm) {
			best = s
		}
		if len(s.mm) == 0 {
			break
		}
	}
	w.cur = got
	w.sh = best.sh
	if best.known != "" && len(best.mm) == 0 {
		// a listed finding: what follows from it is not judged
		w.known = best.known
		w.log("   known finding: %s", w.known)
		return
	}
	for _, h := range best.hits {
		w.hits[h]++
	}
	for _, m := range best.mm {
		if best.injected() || (w.injected > 0 && strings.Contains(m.What, "although admissible")) {
			m.Props = uniq(append(m.Props, "C32"))
		}
		w.bad = append(w.bad, m)
		w.log("!! %v %s", m.Props, m.What)
	}
	w.monitors(op)
	if p := w.panicked.Load(); p != nil {
		w.bad = append(w.bad, Mismatch{Props: uniq(append(P("C32"), props...)), What: p.(string)})
		w.badSteps = 99
	}
	if len(w.bad) > nbad {
		w.badSteps++
	}
	if len(w.trace) > 4000 {
		w.trace = append(w.trace[:50:50], w.trace[len(w.trace)-3000:]...)
	}
}

// stop tells a case should be abandoned (expected and real state are too far apart).
func (w *World) stop() bool { return w.badSteps >= 3 || w.known != "" }

// monitors are invariants of the published state alone.
func (w *World) monitors(op string) {
	c := w.cur
	if w.prof.NoLedger {
		return
	}
	var sum int64
	for _, p := range c.State.Players {
		sum += p.Chips
		if p.Chips < 0 {
			w.flag(P("C17"), "%s: player %s has %d chips", op, p.PlayerID, p.Chips)
		}
	}
	if sum != w.sh.Ledger {
		w.flag(P("C17"), "%s: the players hold %d chips, %d were redeemed and not taken out", op, sum, w.sh.Ledger)
		w.sh.Ledger = sum
	}
	if ended(c) {
		return
	}
	seatOf := map[string]string{}
	for _, id := range w.be.Order {
		ft := w.be.Tables[id]
		if ft.Closed || ft.Released {
			continue
		}
		if len(ft.T.State.PlayerStates) > ft.T.Meta.TableMaxSeatCount {
			w.flag(P("C24"), "%s: table %s holds %d players on %d seats", op, id, len(ft.T.State.PlayerStates), ft.T.Meta.TableMaxSeatCount)
		}
		for _, p := range ft.T.State.PlayerStates {
			if o, ok := seatOf[p.PlayerID]; ok {
				w.flag(P("C24"), "%s: player %s sits at %s and at %s", op, p.PlayerID, o, id)
			}
			seatOf[p.PlayerID] = id
		}
		if len(ft.Queue) == 0 && !inHand(ft) && ft.T.State.Status != pokertable.TableStateStatus_TableGameSettled {
			for _, p := range ft.T.State.PlayerStates {
				cp := findP(c, p.PlayerID)
				if cp != nil && cp.CurrentTableID == id && cp.Chips != p.Bankroll {
					w.flag(P("C17"), "%s: player %s has %d chips at table %s and %d in the competition", op, p.PlayerID, p.Bankroll, id, cp.Chips)
				}
			}
		}
	}
	if !w.mtt {
		return
	}
	for _, p := range c.State.Players {
		if p.Chips <= 0 {
			continue
		}
		t, seated := seatOf[p.PlayerID]
		q := w.quiet()
		switch p.Status {
		case pc.CompetitionPlayerStatus_Playing:
			if !seated || t != p.CurrentTableID {
				w.flag(P("C24"), "%s: player %s plays at table %q but sits at %q", op, p.PlayerID, p.CurrentTableID, t)
			}
		case pc.CompetitionPlayerStatus_WaitingTableBalancing:
			if seated && q {
				w.flag(P("C24"), "%s: player %s waits for a table but sits at %s", op, p.PlayerID, t)
			}
			if !seated && !inStr(w.sh.Waiting, p.PlayerID) && (w.sh.Reg == nil || !inStr(w.sh.Reg.Queue, p.PlayerID)) {
				w.flag(P("C24"), "%s: player %s with %d chips is neither at a table nor queued", op, p.PlayerID, p.Chips)
			}
		default:
			if seated && p.Status == pc.CompetitionPlayerStatus_Knockout {
				w.flag(P("C14", "C24"), "%s: knocked-out player %s holds %d chips", op, p.PlayerID, p.Chips)
			}
		}
	}
}

func inStr(a []string, x string) bool {
	for _, s := range a {
		if s == x {
			return true
		}
	}
	return false
}

// quiet: no table notification is waiting for delivery.
func (w *World) quiet() bool {
	for _, id := range w.be.Order {
		if ft := w.be.Tables[id]; len(ft.Queue) > 0 && !ft.Released {
			return false
		}
	}
	return true
}

// ---- time

func timerProps(k string, mode pc.CompetitionMode) []string {
	switch k {
	case "level":
		return P("C20", "C21", "C13")
	case "lastLevel":
		return P("C21")
	case "startAt":
		if mode == pc.CompetitionMode_MTT {
			return P("C03")
		}
		return P("C02")
	case "disable":
		return P("C03")
	case "ctEnd", "closeT":
		return P("C23")
	case "resume":
		return P("C19")
	case "lapse":
		if mode == pc.CompetitionMode_Cash {
			return P("C11", "C28")
		}
		return P("C11")
	}
	return nil
}

// near collects what a surprise at this quiet moment is about.
func (w *World) near() []string {
	var p []string
	now := time.Now()
	for _, t := range w.sh.Timers {
		if d := t.At.Sub(now); d < 5*time.Second {
			p = append(p, timerProps(t.Kind, w.cur.Meta.Mode)...)
		}
	}
	for _, t := range w.fired {
		if d := now.Sub(t.At); d < 12*time.Second {
			p = append(p, timerProps(t.Kind, w.cur.Meta.Mode)...)
		}
	}
	if ended(w.cur) {
		p = append(p, "C01")
	}
	return uniq(p)
}

func (w *World) quietStep(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
	}
	w.step("quiet", w.near(), "", nil, func(s *Spec) {})
}

func perms(n int) [][]int {
	if n > 4 {
		id := make([]int, n)
		for i := range id {
			id[i] = i
		}
		return [][]int{id}
	}
	var out [][]int
	var rec func(a []int, used int)
	rec = func(a []int, used int) {
		if len(a) == n {
			out = append(out, append([]int{}, a...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(a, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return out
}

// advance lets time pass, checking that nothing happens between the due moments and the right things at them.
func (w *World) advance(to time.Time) {
	if w.joint != nil { // several competitions share the clock
		w.joint(to)
		return
	}
	for !w.stop() {
		at, ok := w.sh.next()
		now := time.Now()
		if !ok || at.After(to) {
			break
		}
		if q := at.Add(-50 * time.Millisecond); q.After(now) {
			w.quietStep(q.Sub(now))
		}
		if d := at.Sub(time.Now()); d > 0 {
			time.Sleep(d)
		}
		due := w.sh.take(at)
		w.fire(due)
	}
	if d := to.Sub(time.Now()); d > 0 {
		w.quietStep(d)
	}
}

func (w *World) fire(due []*Timer) {
	if len(due) == 0 {
		return
	}
	kinds := []string{}
	var props []string
	op := "quiet"
	for _, t := range due {
		kinds = append(kinds, t.Kind)
		props = append(props, timerProps(t.Kind, w.cur.Meta.Mode)...)
		w.fired = append(w.fired, t)
	}
	if len(w.fired) > 12 {
		w.fired = w.fired[len(w.fired)-12:]
	}
	op = kinds[0]
	for _, k := range kinds {
		if k == "lapse" {
			op = "lapse"
		}
	}
	if len(due) == 1 && due[0].Kind == "emit" {
		op = "emit"
	}
	var alts []specFn
	for _, pm := range perms(len(due)) {
		pm := pm
		alts = append(alts, func(s *Spec) {
			for _, i := range pm {
				s.timer(due[i])
			}
		})
	}
	w.multi = len(due) > 1
	w.step(op, uniq(props), strings.Join(kinds, ","), nil, alts...)
	w.multi = false
	for _, t := range due {
		if t.Kind == "emit" && !ended(w.cur) {
			w.checkEmit(len(due) > 1)
		}
	}
}

// checkEmit: half a second after a settled hand at the latest, the state after it has been published.
func (w *World) checkEmit(multi bool) {
	w.settledDue++
	if w.lastPub != pubKey(w.cur) {
		w.flag(P("C36"), "a settled hand was not followed by a competition update showing its result")
	} else {
		w.hits["C36|"+string(w.cur.Meta.Mode)+"|settled-emit"]++
	}
	if w.settledAnn < w.settledDue {
		w.flag(P("C36", "C37"), "a settled hand was not announced")
		w.settledAnn = w.settledDue
	} else if !multi && w.lastSettled != pubKey(w.cur) {
		w.flag(P("C37"), "a settled hand was announced with another state than the one after it")
	} else {
		w.hits["C37|"+string(w.cur.Meta.Mode)+"|settled-emit"]++
	}
}

// ---- delivery of table notifications

func (w *World) deliver(ft *FakeTable) {
	ev := ft.Queue[0]
	ft.Queue = ft.Queue[1:]
	switch ev.Kind {
	case "reserved":
		props := P("C05", "C27")
		if ended(w.cur) {
			props = P("C01")
		}
		w.step("reserved", props, fmt.Sprintf("%s %s seat %d", ev.TableID, ev.Player.PlayerID, ev.Player.Seat), func() {
			w.be.Dispatch(ft.Owner, ev)
		}, func(s *Spec) { s.reserved(ev.TableID, ev.Player) })
	case "ready":
		props := P("C22")
		if ended(w.cur) {
			props = P("C01")
		}
		w.step("ready", props, fmt.Sprintf("%s gc %d", ev.TableID, ev.GameCount), func() {
			w.be.Dispatch(ft.Owner, ev)
		}, func(s *Spec) { s.ready(ev.TableID, ev.GameCount, ev.Players) })
	case "update":
		w.report(ft.Owner, ev.Table)
	}
}

// report delivers a table update and keeps a private copy of what was reported.
func (w *World) report(owner string, t *pokertable.Table) {
	keep := cloneTable(t)
	st := t.State.Status
	op, props := "update", P("C18")
	switch st {
	case pokertable.TableStateStatus_TableCreated:
		op = "created"
		props = P("C02", "C18")
	case pokertable.TableStateStatus_TablePausing:
		op = "pausing"
		props = P("C22")
	case pokertable.TableStateStatus_TableClosed:
		op = "closed"
		props = P("C18", "C23")
	case pokertable.TableStateStatus_TableGameSettled:
		op = "settled"
		props = nil
		k := fmt.Sprintf("%s|%d", t.ID, t.State.GameCount)
		if w.sh.Settled[k] {
			op = "dup"
			props = P("C09")
		}
		if w.reports[k] == nil {
			w.repKeys = append(w.repKeys, k)
		}
		w.reports[k] = keep
	}
	if i, _ := findT(w.cur, t.ID); i < 0 {
		op, props = "foreign", P("C18")
	}
	if ended(w.cur) {
		op, props = "late", P("C01")
	}
	if (op == "created" || op == "update") && w.mtt {
		props = P("C18")
	}
	w.step(op, props, fmt.Sprintf("%s %s gc %d %s", t.ID, st, t.State.GameCount, psString(keep)), func() {
		w.be.Dispatch(owner, FEvent{Kind: "update", Table: t, TableID: t.ID})
		scribble(t)
	}, func(s *Spec) { s.report(keep) })
	scribble(t)
}

func psString(t *pokertable.Table) string {
	out := []string{}
	for _, p := range t.State.PlayerStates {
		x := fmt.Sprintf("%s@%d:%d", p.PlayerID, p.Seat, p.Bankroll)
		if !p.IsIn {
			x += "-"
		}
		if p.IsParticipated {
			x += "*"
		}
		out = append(out, x)
	}
	return strings.Join(out, " ")
}

// scribble ruins the reporter's own copy: the competition must not notice.
func scribble(t *pokertable.Table) {
	t.State.Status = "scribbled"
	t.State.GameCount += 1000
	for _, p := range t.State.PlayerStates {
		p.Bankroll = -77
		p.PlayerID = "scribbled"
		p.IsIn = !p.IsIn
	}
	for i := range t.State.SeatMap {
		t.State.SeatMap[i] = 99
	}
	t.State.NextBBOrderPlayerIDs = nil
	if t.State.BlindState != nil {
		t.State.BlindState.Level = 777
	}
	if t.State.GameState != nil {
		t.State.GameState.GameID = "scribbled"
		for _, p := range t.State.GameState.Players {
			if p.Combination != nil {
				p.Combination.Power = 9999
				for i := range p.Combination.Cards {
					p.Combination.Cards[i] = "XX"
				}
			}
		}
	}
}

// drain delivers what tables have to say. all=false keeps plain updates back.
func (w *World) drain(all bool) {
	for n := 0; n < 500 && !w.stop(); n++ {
		var pick *FakeTable
		for _, id := range w.be.Order {
			ft := w.be.Tables[id]
			if len(ft.Queue) == 0 {
				continue
			}
			if all {
				pick = ft
				break
			}
			for _, e := range ft.Queue {
				if e.Kind != "update" || statusIn(e.Table.State.Status, pokertable.TableStateStatus_TableGameSettled, pokertable.TableStateStatus_TableClosed) {
					pick = ft
					break
				}
			}
			if pick != nil {
				break
			}
		}
		if pick == nil {
			return
		}
		w.deliver(pick)
	}
}
