package vh

// C29: several competitions behind one manager and one shared table backend.

import (
	"errors"
	"fmt"
	"math/rand"
	"testing/synctest"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
)

// muxBackend is the shared backend: every table belongs to the recorded tables of its competition.
type muxBackend struct {
	by    map[string]*Backend // competition
	owner map[string]*Backend // table
	cur   *Backend            // of the competition that was addressed last, for unknown tables
	onU   func(*pokertable.Table)
}

func (m *muxBackend) of(table string) *Backend {
	if b := m.owner[table]; b != nil {
		return b
	}
	return m.cur
}
func (m *muxBackend) OnTableUpdated(fn func(*pokertable.Table))                           { m.onU = fn }
func (m *muxBackend) OnTablePlayerReserved(fn func(string, *pokertable.TablePlayerState)) {}
func (m *muxBackend) OnReadyOpenFirstTableGame(fn func(string, int, []*pokertable.TablePlayerState)) {
}
func (m *muxBackend) CreateTable(o *pokertable.TableEngineOptions, s pokertable.TableSetting) (*pokertable.Table, error) {
	b := m.by[s.Meta.CompetitionID]
	if b == nil {
		return nil, fmt.Errorf("mux: table for unknown competition %q", s.Meta.CompetitionID)
	}
	m.owner[s.TableID] = b
	return b.CreateTable(o, s)
}
func (m *muxBackend) PauseTable(id string) error     { return m.of(id).PauseTable(id) }
func (m *muxBackend) CloseTable(id string) error     { return m.of(id).CloseTable(id) }
func (m *muxBackend) StartTableGame(id string) error { return m.of(id).StartTableGame(id) }
func (m *muxBackend) SetUpTableGame(id string, gc int, p map[string]int) error {
	return m.of(id).SetUpTableGame(id, gc, p)
}
func (m *muxBackend) UpdateBlind(id string, l int, a, d, s, b int64) error {
	return m.of(id).UpdateBlind(id, l, a, d, s, b)
}
func (m *muxBackend) UpdateTablePlayers(id string, j []pokertable.JoinPlayer, l []string) (map[string]int, error) {
	return m.of(id).UpdateTablePlayers(id, j, l)
}
func (m *muxBackend) PlayerReserve(id string, j pokertable.JoinPlayer) error {
	return m.of(id).PlayerReserve(id, j)
}
func (m *muxBackend) PlayerJoin(id, p string) error { return m.of(id).PlayerJoin(id, p) }
func (m *muxBackend) PlayerRedeemChips(id string, j pokertable.JoinPlayer) error {
	return m.of(id).PlayerRedeemChips(id, j)
}
func (m *muxBackend) PlayersLeave(id string, ids []string) error {
	return m.of(id).PlayersLeave(id, ids)
}
func (m *muxBackend) UpdateTable(t *pokertable.Table) { m.onU(t) }
func (m *muxBackend) ReleaseTable(id string) error    { return m.of(id).ReleaseTable(id) }

// mgrEngine is one competition seen through the manager.
type mgrEngine struct {
	m    pc.Manager
	id   string
	o    *pc.CompetitionEngineOptions
	ce   pc.CompetitionEngine
	gone bool
	use  func() // a request is about to be made
	odd  func(f string, a ...any)
}

func (e *mgrEngine) OnCompetitionUpdated(fn func(*pc.Competition)) { e.o.OnCompetitionUpdated = fn }
func (e *mgrEngine) OnCompetitionErrorUpdated(fn func(*pc.Competition, error)) {
	e.o.OnCompetitionErrorUpdated = fn
}
func (e *mgrEngine) OnCompetitionPlayerUpdated(fn func(string, *pc.CompetitionPlayer)) {
	e.o.OnCompetitionPlayerUpdated = fn
}
func (e *mgrEngine) OnCompetitionFinalPlayerRankUpdated(fn func(string, string, int)) {
	e.o.OnCompetitionFinalPlayerRankUpdated = fn
}
func (e *mgrEngine) OnCompetitionStateUpdated(fn func(string, *pc.Competition)) {
	e.o.OnCompetitionStateUpdated = fn
}
func (e *mgrEngine) OnCompetitionPlayerCashOut(fn func(string, *pc.CompetitionPlayer)) {
	e.o.OnCompetitionPlayerCashOut = fn
}
func (e *mgrEngine) OnAdvancePlayerCountUpdated(fn func(string, int) int) {
	e.o.OnAdvancePlayerCountUpdated = fn
}
func (e *mgrEngine) OnTableCreated(fn func(*pokertable.Table)) {}
func (e *mgrEngine) GetCompetition() *pc.Competition           { return e.ce.GetCompetition() }
func (e *mgrEngine) CreateCompetition(s pc.CompetitionSetting) (*pc.Competition, error) {
	e.use()
	c, err := e.m.CreateCompetition(s, e.o)
	if err == nil {
		ce, ferr := e.m.GetCompetitionEngine(e.id)
		if ferr != nil || ce == nil {
			e.odd("a created competition cannot be found: %v", ferr)
			return nil, ferr
		}
		e.ce = ce
		if ce.GetCompetition() != c {
			e.odd("the competition found under %s is not the one created", e.id)
		}
	}
	return c, err
}
func (e *mgrEngine) UpdateCompetitionBlindInitialLevel(l int) error {
	e.use()
	return e.m.UpdateCompetitionBlindInitialLevel(e.id, l)
}
func (e *mgrEngine) CloseCompetition(st pc.CompetitionStateStatus) error {
	e.use()
	err := e.m.CloseCompetition(e.id, st)
	if err == nil {
		e.gone = true
		if x, ferr := e.m.GetCompetitionEngine(e.id); ferr != pc.ErrManagerCompetitionNotFound || x != nil {
			e.odd("a closed competition is still found (%v)", ferr)
		}
	}
	return err
}
func (e *mgrEngine) StartCompetition() (int64, error)  { e.use(); return e.m.StartCompetition(e.id) }
func (e *mgrEngine) PlayerBuyIn(j pc.JoinPlayer) error { e.use(); return e.m.PlayerBuyIn(e.id, j) }
func (e *mgrEngine) PlayerAddon(t string, j pc.JoinPlayer) error {
	e.use()
	return e.m.PlayerAddon(e.id, t, j)
}
func (e *mgrEngine) PlayerRefund(p string) error     { e.use(); return e.m.PlayerRefund(e.id, p) }
func (e *mgrEngine) PlayerCashOut(t, p string) error { e.use(); return e.m.PlayerCashOut(e.id, t, p) }
func (e *mgrEngine) PlayerQuit(t, p string) error    { e.use(); return e.m.PlayerQuit(e.id, t, p) }
func (e *mgrEngine) UpdateTable(t *pokertable.Table) { e.use(); e.m.UpdateTable(e.id, t) }
func (e *mgrEngine) UpdateReserveTablePlayerState(t string, p *pokertable.TablePlayerState) {
	e.use()
	e.m.UpdateReserveTablePlayerState(e.id, t, p)
}
func (e *mgrEngine) AutoGameOpenEnd(t string) error { e.use(); return e.m.AutoGameOpenEnd(e.id, t) }
func (e *mgrEngine) ReleaseTables() error           { return e.ce.ReleaseTables() }
func (e *mgrEngine) ReadyFirstTableGame(t string, gc int, p []*pokertable.TablePlayerState) error {
	e.use()
	return e.m.ReadyFirstTableGame(e.id, t, gc, p)
}

type member struct {
	w    *World
	e    *mgrEngine
	snap string
	seed int64
}

type group struct {
	c    *Case
	r    *rand.Rand
	m    pc.Manager
	mux  *muxBackend
	ms   []*member
	lock bool // a joint step is being evaluated
}

func snapOf(c *pc.Competition) string {
	if c == nil {
		return ""
	}
	return jsonOf(cloneComp(c))
}

// settingsFor draws the competition and player of one member, the same way every time.
func settingsFor(seed int64, id string) (*rand.Rand, *Profile, pc.CompetitionSetting) {
	r := rand.New(rand.NewSource(seed))
	prof := generalProfile()
	if r.Intn(2) == 0 {
		prof.W = map[string]int{"table": 90, "rebuy": 8, "addon": 6, "cashout": 5, "quit": 5, "refund": 3}
		prof.Bust = 0.4
	}
	mode := prof.Modes[r.Intn(len(prof.Modes))]
	return r, prof, genSetting(r, mode, id)
}

func (g *group) join(seed int64, id string) *member {
	r, prof, set := settingsFor(seed, id)
	w := newWorld(r, prof, set)
	e := &mgrEngine{m: g.m, id: id, o: pc.NewDefaultCompetitionEngineOptions()}
	mb := &member{w: w, e: e, seed: seed}
	e.use = func() { g.mux.cur = w.be }
	e.odd = func(f string, a ...any) { w.flag(P("C29"), f, a...) }
	w.ce = e
	w.opts = g.m.GetTableEngineOptions()
	w.hook()
	g.mux.by[id] = w.be
	w.be.Deliver = func(owner string, ev FEvent) {
		g.mux.cur = w.be
		var err error
		switch ev.Kind {
		case "update":
			err = g.m.UpdateTable(owner, ev.Table)
		case "reserved":
			err = g.m.UpdateReserveTablePlayerState(owner, ev.TableID, ev.Player)
		case "ready":
			err = g.m.ReadyFirstTableGame(owner, ev.TableID, ev.GameCount, ev.Players)
		}
		if err != nil && err != pc.ErrManagerCompetitionNotFound {
			w.told = append(w.told, err)
			w.rets++ // the host is told by the answer instead of an error event
		}
		if err == pc.ErrManagerCompetitionNotFound && owner == id && !e.gone {
			w.flag(P("C29"), "a table report (%s) for a running competition was answered with %v", ev.Kind, err)
		}
	}
	w.joint = g.advance
	w.after = func(op string) { g.others(mb, op) }
	g.mux.cur = w.be
	if !w.create() {
		return mb
	}
	mb.snap = snapOf(w.ce.GetCompetition())
	g.ms = append(g.ms, mb)
	return mb
}

// others: a step of one competition leaves the rest alone.
func (g *group) others(self *member, op string) {
	if self.e.ce != nil {
		self.snap = snapOf(self.w.ce.GetCompetition())
	}
	if g.lock {
		return
	}
	for _, o := range g.ms {
		if o == self {
			continue
		}
		if n := len(o.w.be.Cmds); n > 0 {
			o.w.flag(P("C29"), "%s of %s commanded the tables of %s: %s", op, self.e.id, o.e.id, o.w.be.Cmds[0])
			o.w.be.Cmds = nil
		}
		if ev := o.w.ev; len(ev.Upd)+len(ev.Errs)+len(ev.Players)+len(ev.Ranks)+len(ev.States)+len(ev.Cash)+len(ev.Adv) > 0 {
			o.w.flag(P("C29"), "%s of %s was announced by %s: %v", op, self.e.id, o.e.id, jsonOf(ev))
			o.w.ev = &Ev{}
		}
		if s := snapOf(o.e.ce.GetCompetition()); s != o.snap {
			o.w.flag(P("C29"), "%s of %s changed %s", op, self.e.id, o.e.id)
			o.snap = s
			o.w.badSteps = 99
		}
		if !o.e.gone {
			if ce, err := g.m.GetCompetitionEngine(o.e.id); err != nil || ce != o.e.ce {
				o.w.flag(P("C29"), "after %s of %s the manager does not find %s any more (%v)", op, self.e.id, o.e.id, err)
				o.w.badSteps = 99
			}
		}
	}
}

func (g *group) stop() bool {
	for _, m := range g.ms {
		if len(m.w.bad) > 0 {
			return true
		}
	}
	return false
}

// advance lets time pass for all competitions together.
func (g *group) advance(to time.Time) {
	all := func() {
		g.lock = true
		for _, m := range g.ms {
			m.w.quietStep(0)
		}
		g.lock = false
	}
	for !g.stop() {
		var at time.Time
		ok := false
		for _, m := range g.ms {
			if m.w.known != "" {
				continue
			}
			if t, o := m.w.sh.next(); o && (!ok || t.Before(at)) {
				at, ok = t, true
			}
		}
		if !ok || at.After(to) {
			break
		}
		if q := at.Add(-50 * time.Millisecond); q.After(time.Now()) {
			time.Sleep(q.Sub(time.Now()))
			all()
		}
		if d := at.Sub(time.Now()); d > 0 {
			time.Sleep(d)
		}
		synctest.Wait()
		g.lock = true
		for _, m := range g.ms {
			if due := m.w.sh.take(at); len(due) > 0 {
				m.w.fire(due)
			} else {
				m.w.quietStep(0)
			}
		}
		g.lock = false
	}
	if d := to.Sub(time.Now()); d > 0 {
		time.Sleep(d)
		all()
	}
}

// probe addresses a competition the manager must not know.
func (g *group) probe(id string, about *World) {
	r := g.r
	tid, pid := about.anyTableID(), about.randPlayer()
	if len(about.cur.State.Players) > 0 && r.Intn(4) > 0 {
		pid = about.cur.State.Players[r.Intn(len(about.cur.State.Players))].PlayerID
	}
	j := pc.JoinPlayer{PlayerID: pid, RedeemChips: 100, Unit: 1}
	ps := &pokertable.TablePlayerState{PlayerID: pid, Seat: r.Intn(5), Bankroll: 100, IsIn: true}
	k := r.Intn(13)
	names := []string{"update", "buyin", "addon", "refund", "cashout", "quit", "start", "updInit", "close", "autoend", "reserved", "ready", "find"}
	var err error
	about.step("probe", P("C29"), names[k]+" for "+id, func() {
		g.mux.cur = about.be
		switch k {
		case 0:
			t := &pokertable.Table{ID: tid, State: &pokertable.TableState{Status: pokertable.TableStateStatus_TableClosed}}
			if ft := about.be.Tables[tid]; ft != nil {
				t = cloneTable(ft.T)
				if r.Intn(2) == 0 {
					t.State.Status = pokertable.TableStateStatus_TableClosed
				}
			}
			err = g.m.UpdateTable(id, t)
		case 1:
			err = g.m.PlayerBuyIn(id, j)
		case 2:
			err = g.m.PlayerAddon(id, tid, j)
		case 3:
			err = g.m.PlayerRefund(id, pid)
		case 4:
			err = g.m.PlayerCashOut(id, tid, pid)
		case 5:
			err = g.m.PlayerQuit(id, tid, pid)
		case 6:
			var at int64
			at, err = g.m.StartCompetition(id)
			if at != 0 {
				about.flag(P("C29"), "starting an unknown competition returned start time %d", at)
			}
		case 7:
			err = g.m.UpdateCompetitionBlindInitialLevel(id, 1)
		case 8:
			err = g.m.CloseCompetition(id, pc.CompetitionStateStatus_ForceEnd)
		case 9:
			err = g.m.AutoGameOpenEnd(id, tid)
		case 10:
			err = g.m.UpdateReserveTablePlayerState(id, tid, ps)
		case 11:
			err = g.m.ReadyFirstTableGame(id, tid, 0, []*pokertable.TablePlayerState{ps})
		case 12:
			var ce pc.CompetitionEngine
			ce, err = g.m.GetCompetitionEngine(id)
			if ce != nil {
				about.flag(P("C29"), "an unknown competition was found")
			}
		}
	}, func(s *Spec) {
		if !errors.Is(err, pc.ErrManagerCompetitionNotFound) {
			s.bad(P("C29"), "%s for a competition the manager does not have (%s) returned %v", names[k], id, err)
		}
	})
	g.c.hit("notfound:" + names[k])
}

func (m *member) findable() bool { return !m.e.gone }

func managerCase(c *Case) string {
	r := c.r
	if d := align(time.Now()).Sub(time.Now()); d > 0 {
		time.Sleep(d)
	}
	g := &group{c: c, r: r, mux: &muxBackend{by: map[string]*Backend{}, owner: map[string]*Backend{}}}
	g.m = pc.NewManager(g.mux)
	n := 2 + r.Intn(3)
	add := func() {
		// ids that are prefixes of one another
		id := fmt.Sprintf("c%d", 1+len(g.ms))
		if len(g.ms)%2 == 1 {
			id = g.ms[len(g.ms)-1].e.id + "-b"
		}
		if r.Intn(3) == 0 {
			o := pokertable.NewTableEngineOptions()
			g.m.SetTableEngineOptions(o)
		}
		g.join(r.Int63(), id)
	}
	for i := 0; i < n && !g.stop(); i++ {
		add()
	}
	steps := 60*n + r.Intn(120)
	for i := 0; i < steps && !g.stop(); i++ {
		if len(g.ms) == 0 {
			break
		}
		m := g.ms[r.Intn(len(g.ms))]
		w := m.w
		if w.known != "" {
			continue
		}
		switch {
		case r.Intn(40) == 0:
			g.probe([]string{"nobody", "", "c", w.set.CompetitionID + "x", w.set.CompetitionID[:1]}[r.Intn(5)], w)
		case m.e.gone:
			for _, id := range w.be.Order { // nobody listens any more
				w.be.Tables[id].Queue = nil
			}
			if r.Intn(3) == 0 {
				g.probe(m.e.id, w)
			} else {
				w.pass(time.Duration(1+r.Intn(2)) * time.Second)
			}
		case r.Intn(400) == 0 && !ended(w.cur):
			w.step("release", P("C29"), m.e.id, func() { g.m.ReleaseCompetition(m.e.id); m.e.gone = true }, func(s *Spec) {})
			w.prof.NoLedger = true // its tables are not heard any more
			c.hit("released:" + string(w.cur.State.Status))
		case r.Intn(150) == 0 && len(g.ms) > 1:
			// a report of another competition's table is nobody's business
			o := g.ms[r.Intn(len(g.ms))]
			if ft := o.w.someTable(); o != m && ft != nil {
				w.report(m.e.id, cloneTable(ft.T))
				c.hit("misrouted:" + string(ft.T.State.Status))
			}
		case r.Intn(250) == 0 && len(g.ms) < 6:
			add()
		default:
			before := m.e.gone
			w.act()
			if m.e.gone && !before {
				c.hit("closed:" + string(w.cur.State.Status))
			}
			st := "r"
			if ended(w.cur) {
				st = "e"
			}
			c.hit("routed:" + string(w.set.Meta.Mode) + ":" + st)
		}
	}
	if !g.stop() && r.Intn(3) == 0 {
		// resetting ends every competition the manager has
		for _, m := range g.ms {
			m.w.drain(true)
		}
		if !g.stop() {
			g.m.Reset()
			synctest.Wait()
			g.lock = true
			for _, m := range g.ms {
				m := m
				was := ended(m.w.cur)
				m.w.step("reset", P("C29"), m.e.id, nil, func(s *Spec) {
					if m.findable() && !ended(s.c) {
						s.closeReq(pc.CompetitionStateStatus_ForceEnd, nil)
					}
				})
				if m.findable() && !ended(m.w.cur) {
					m.w.flag(P("C29"), "a reset left %s running (%s)", m.e.id, m.w.cur.State.Status)
				}
				c.hit(fmt.Sprintf("reset:findable%v:ended%v", m.findable(), was))
				m.e.gone = true
			}
			g.lock = false
			for _, m := range g.ms {
				if !g.stop() {
					g.probe(m.e.id, m.w)
				}
			}
			if !g.stop() {
				add()
			}
		}
	}
	for _, m := range g.ms {
		c.steps += m.w.steps
		c.events += m.w.nEvents
		c.cmds += m.w.nCmds
		if m.e.ce != nil && !ended(m.e.ce.GetCompetition()) {
			m.w.guard("teardown", func() { m.e.ce.CloseCompetition(pc.CompetitionStateStatus_ForceEnd) })
		}
	}
	time.Sleep(time.Second)
	g.judge()
	return fmt.Sprintf("manager:%d", n)
}

// judge decides whether what went wrong is about routing: deviations competitions show without a manager as well are not.
func (g *group) judge() {
	var rest []Mismatch
	for _, m := range g.ms {
		for _, b := range m.w.bad {
			if inStr(b.Props, "C29") {
				g.c.fail("%s: %s", m.e.id, b.What)
				g.c.trace = append(g.c.trace, m.w.trace...)
				continue
			}
			rest = append(rest, b)
			g.c.trace = append(g.c.trace, m.w.trace...)
		}
	}
	if len(rest) == 0 {
		g.c.trace = append(g.c.trace, firstN(g.ms[0].w.trace, 40)...)
		return
	}
	alone := map[string]bool{}
	solo := func(seed int64, id string) {
		r, prof, set := settingsFor(seed, id)
		w := newWorld(r, prof, set)
		w.run(prof.Steps)
		for _, b := range w.bad {
			for _, p := range b.Props {
				alone[p] = true
			}
		}
	}
	for _, m := range g.ms {
		for i := 0; i < 3; i++ {
			progress.Add(1)
			solo(m.seed, m.e.id)
		}
	}
	for i := 0; i < 150 && len(alone) == 0; i++ {
		progress.Add(1)
		solo(g.r.Int63(), "solo")
	}
	if len(alone) > 0 {
		g.c.log("competitions without a manager deviate as well (%v): not about routing", alone)
		return
	}
	for _, b := range rest {
		g.c.fail("only with a manager: %s", b.What)
	}
}

func firstN(a []string, n int) []string {
	if len(a) > n {
		return a[:n]
	}
	return a
}

func init() {
	workloads["C29"] = caseWorkload(func(c *Case) string {
		if c.idx == 0 {
			return sharedNativeCase(c)
		}
		return managerCase(c)
	})
}
