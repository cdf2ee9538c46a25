package vh

// C32: table commands that fail, and tables and listeners that call back into the competition from inside
// a command or an announcement.

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sync/atomic"
	"testing/synctest"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
)

// ---- failing commands, under the full specification

func (s *Spec) injected() bool {
	for _, c := range s.cmds {
		if errors.Is(c.Err, ErrFakeInjected) {
			return true
		}
	}
	return false
}

func (s *Spec) failed() int { return nFailed(s.cmds) }

// untold lists the refused commands whose errors did not all reach the host, as an announcement or an answer.
func untold(cmds []*Cmd, announced []error, returned error, answered []error) []*Cmd {
	failed, heard := map[string][]*Cmd{}, map[string]int{}
	for _, c := range cmds {
		if c.Err != nil {
			failed[c.Err.Error()] = append(failed[c.Err.Error()], c)
		}
	}
	var out []*Cmd
	for text, cs := range failed {
		for _, e := range append(append([]error{returned}, announced...), answered...) {
			for _, c := range cs {
				if c.tells(e) {
					heard[text]++
					break
				}
			}
		}
		if heard[text] < len(cs) {
			out = append(out, cs[heard[text]])
		}
	}
	return out
}

func nFailed(cmds []*Cmd) int {
	n := 0
	for _, c := range cmds {
		if c.Err != nil {
			n++
		}
	}
	return n
}

func (s *Spec) firstFailed() string {
	for _, c := range s.cmds {
		if c.Err != nil {
			return c.String()
		}
	}
	return ""
}

// faultKinds are the commands a table refuses now and then in some of the competitions a property is checked with.
var faultKinds = map[string][]string{
	"C01": {"ReleaseTable"},
	"C05": {"PlayerReserve"},
	"C07": {"PlayerRedeemChips"},
	"C08": {"PlayersLeave"},
	"C11": {"PlayersLeave"},
	"C12": {"PlayersLeave"},
	"C13": {"PlayersLeave"},
	"C15": {"ReleaseTable", "PlayersLeave"},
	"C19": {"SetUpTableGame", "StartTableGame"},
	"C20": {"UpdateBlind"},
	"C22": {"SetUpTableGame"},
	"C23": {"CloseTable"},
	"C26": {"PauseTable"},
	"C28": {"PlayersLeave"},
	"C36": {"PlayerReserve", "PlayersLeave", "UpdateBlind", "SetUpTableGame"},
	"C37": {"PlayerReserve", "PlayersLeave", "UpdateBlind", "ReleaseTable"},
}

// faultCase: a simulated competition in which table commands (never the balancer's) fail now and then.
func faultCase(res *Result, idx int, r *rand.Rand, of string, kinds map[string]bool) {
	prof := profileOf(of, r)
	mode := prof.Modes[r.Intn(len(prof.Modes))]
	set := genSetting(r, mode, fmt.Sprintf("c%d", idx))
	if prof.Cfg != nil {
		prof.Cfg(r, &set)
	}
	p := *prof
	p.NoLedger = true // a seat or chips refused by the table are settled between host and table
	w := newWorld(r, &p, set)
	rate := pickI(r, 3, 6, 15)
	w.be.Refuse = r.Intn(3)
	left := 1 + r.Intn(6)
	if of == "C41" || vhProp == "C41" {
		left = 40
	}
	if kinds != nil {
		rate = pickI(r, 10, 30, 100)
	}
	fr := rand.New(rand.NewSource(r.Int63()))
	w.be.Fault = func(kind, table string) error {
		if kind == "CreateTable" || kind == "UpdateTablePlayers" || left == 0 || kinds != nil && !kinds[kind] || fr.Intn(100) >= rate {
			return nil
		}
		left--
		w.injected++
		return ErrFakeInjected
	}
	w.after = func(string) { // a table that refused to let somebody go removes him in the end
		if w.injected == 0 || w.cur == nil {
			return
		}
		for _, ft := range w.be.Tables {
			var gone []string
			for _, tp := range ft.T.State.PlayerStates {
				if findP(w.cur, tp.PlayerID) == nil {
					gone = append(gone, tp.PlayerID)
				}
			}
			if len(gone) > 0 && !inHand(ft) && ft.T.State.Status != pokertable.TableStateStatus_TableGameSettled && ft.Owner == w.set.CompetitionID {
				w.be.removePlayers(ft, gone)
			}
		}
	}
	w.run(p.Steps)
	res.add(idx, w, "fault:"+string(mode))
}

// ---- calls from inside commands and announcements

// looseStep judges a call by its return and by the failures it reports alone.
func (w *World) looseStep(op, desc string, act func()) {
	if desc != "" {
		w.log("%s %s", op, desc)
	}
	nbad := len(w.bad)
	w.ret, w.rets, w.told = nil, 0, nil
	if act != nil {
		var fin atomic.Bool
		w.inCall = true
		go func() {
			w.guard(op, act)
			fin.Store(true)
		}()
		synctest.Wait()
		if !fin.Load() {
			time.Sleep(20 * time.Second) // a settled hand takes half a second to be announced
			synctest.Wait()
		}
		w.inCall = false
		if !fin.Load() {
			w.flag(P("C32"), "%s: the call did not return within 20 s", op)
			w.badSteps = 99
			return
		}
	} else {
		synctest.Wait()
	}
	w.cur = cloneComp(w.ce.GetCompetition())
	w.nCmds += len(w.be.Cmds)
	for _, c := range w.be.Cmds {
		if c.Kind == "again" {
			w.log("   from inside: %s", c.Table)
			continue
		}
		w.log("   table command %s", c)
	}
	if w.left == nil {
		w.left = map[string]bool{}
	}
	for _, c := range w.be.Cmds {
		if c.Kind == "ReleaseTable" && c.Err != nil {
			w.left[c.Table] = true // the host's to release
		}
	}
	if ended(w.cur) {
		for _, ft := range w.tables() {
			if !ft.Released && !ft.Closed && !w.left[ft.T.ID] {
				w.left[ft.T.ID] = true
				w.flag(P("C32", "C01"), "%s: the competition ended, but table %s goes on", op, ft.T.ID)
			}
		}
	}
	for _, c := range untold(w.be.Cmds, w.ev.Errs, w.ret, w.told) {
		w.flag(P("C41"), "%s: %s failed with %q, and nobody is told (returned %v, announced %v)", op, c, c.Err, w.ret, w.ev.Errs)
	}
	if n := nFailed(w.be.Cmds); n > 0 {
		k := len(w.ev.Errs) + w.rets
		if w.ret != nil {
			k++
		}
		if k < n {
			w.flag(P("C32"), "%s: %d table commands failed, but only %d failures were announced or returned", op, n, k)
		}
		for _, c := range w.be.Cmds {
			if c.Err != nil {
				w.hits[fmt.Sprintf("C41|%s|re:%s:%s", w.set.Meta.Mode, op, c.Kind)]++
				w.hits[fmt.Sprintf("C32|%s|re:failed:%s:%s", w.set.Meta.Mode, op, c.Kind)]++
			}
		}
	}
	for _, c := range w.be.Cmds {
		if !c.Late {
			continue
		}
		w.hits[fmt.Sprintf("C32|%s|re:late:%s", w.set.Meta.Mode, c.Kind)]++
		switch c.Kind { // what was under way may still take players off tables
		case "CreateTable", "PlayerReserve", "StartTableGame", "SetUpTableGame", "PlayerRedeemChips", "UpdateTablePlayers":
			if c.Kind == "UpdateTablePlayers" && len(c.Joins) == 0 {
				continue
			}
			w.flag(P("C32", "C01"), "%s: the competition had ended, but the tables go on being commanded: %s", op, c)
		}
	}
	seen := map[string]bool{}
	for _, p := range w.cur.State.Players {
		if seen[p.PlayerID] {
			w.flag(P("C32", "C05"), "%s: player %s is listed twice", op, p.PlayerID)
		}
		seen[p.PlayerID] = true
	}
	if p := w.panicked.Load(); p != nil {
		w.bad = append(w.bad, Mismatch{Props: P("C32"), What: p.(string)})
		w.badSteps = 99
	}
	if len(w.bad) > nbad {
		w.badSteps++
	}
}

func (w *World) reentrant(r *rand.Rand, faultRate int) {
	be := w.be
	be.Sync, be.Refuse = true, r.Intn(3)
	depth, budget := 0, 0
	same := map[string]int{}
	w.after = func(string) {
		budget = 0
		clear(same)
	}
	fr := rand.New(rand.NewSource(r.Int63()))
	be.Fault = func(kind, table string) error {
		if kind == "again" {
			return nil
		}
		if faultRate > 0 && fr.Intn(100) < faultRate {
			return ErrFakeInjected
		}
		return nil
	}
	be.Tired = func(c *Cmd) bool { // the balancer asks for the same thing for ever
		k := fmt.Sprint(c.Table, joinKey(c.Joins))
		same[k]++
		if same[k] > 60 {
			w.known = KnownRetry
			return true
		}
		return false
	}
	settles, closed, closes := 0, 0, 0
	again := func(f string, a ...interface{}) {
		what := fmt.Sprintf(f, a...)
		be.Cmds = append(be.Cmds, &Cmd{Kind: "again", Table: what})
	}
	hit := func(f string, a ...interface{}) {
		w.hits[fmt.Sprintf("C32|%s|re:", w.set.Meta.Mode)+fmt.Sprintf(f, a...)]++
	}
	be.OnCmd = func(kind, table string) {
		if c := w.ce.GetCompetition(); c != nil && ended(c) {
			be.Cmds[len(be.Cmds)-1].Late = true
		}
		if w.ce.GetCompetition() == nil || be.InCreate || depth >= 3 || budget >= 8 || fr.Intn(100) >= 25 {
			return
		}
		depth++
		budget++
		defer func() { depth-- }()
		ft := w.someTable()
		if x := be.Tables[table]; x != nil && fr.Intn(2) == 0 {
			ft = x
		}
		if ft == nil {
			return
		}
		switch fr.Intn(7) {
		case 6:
			// the host closes a table; the balancer must not be told of it in the middle of its own work
			if be.InBalance > 0 || closes >= 2 || w.set.Meta.Mode != mtt || fr.Intn(3) > 0 {
				return
			}
			closes++
			again("%s: %s is closed", kind, ft.T.ID)
			hit("closed-in:%s:tables%d", kind, len(w.ce.GetCompetition().State.Tables))
			ft.T.State.Status = pokertable.TableStateStatus_TableClosed
			ft.Closed = true
			be.Dispatch(ft.Owner, FEvent{Kind: "update", Table: cloneTable(ft.T), TableID: ft.T.ID})
		case 0, 1:
			again("%s reports %s (%s)", kind, ft.T.ID, ft.T.State.Status)
			hit("update-in:%s:%s", kind, ft.T.State.Status)
			if ft.T.State.Status == pokertable.TableStateStatus_TableGameSettled && be.InBalance > 0 {
				return
			}
			be.Dispatch(ft.Owner, FEvent{Kind: "update", Table: cloneTable(ft.T), TableID: ft.T.ID})
		case 2:
			if n := len(ft.T.State.PlayerStates); n > 0 {
				p := ft.T.State.PlayerStates[fr.Intn(n)]
				again("%s: %s sits at %s", kind, p.PlayerID, ft.T.ID)
				hit("reserved-in:%s", kind)
				be.Dispatch(ft.Owner, FEvent{Kind: "reserved", TableID: ft.T.ID, Player: clonePS(p)})
			}
		case 3:
			// the balancer library is not re-entrant: it holds its lock while it asks for players to be seated
			if inHand(ft) && be.InBalance == 0 && settles < 40 {
				settles++
				again("%s: %s settles hand %d", kind, ft.T.ID, ft.T.State.GameCount)
				hit("settled-in:%s", kind)
				be.SettleHand(ft, 0.4, false)
				ft.NextAt = time.Now().Add(time.Second)
			}
		case 4:
			again("%s: %s is ready", kind, ft.T.ID)
			hit("ready-in:%s", kind)
			be.Dispatch(ft.Owner, FEvent{Kind: "ready", TableID: ft.T.ID, GameCount: ft.T.State.GameCount, Players: clonePSs(ft.T.State.PlayerStates)})
		case 5:
			again("%s: the table %s stops dealing", kind, ft.T.ID)
			hit("autoend-in:%s", kind)
			w.ce.AutoGameOpenEnd(ft.T.ID)
		}
	}
	closeAt := -1
	if r.Intn(3) == 0 {
		closeAt = 20 + r.Intn(400)
	}
	n := 0
	w.listen = func(kind string) {
		n++
		c := w.ce.GetCompetition()
		if c == nil || fr.Intn(4) > 0 {
			return
		}
		hit("query-in:%s", kind)
		query(c)
		if closeAt >= 0 && n >= closeAt && closed < 3 && fr.Intn(3) == 0 {
			closed++
			hit("close-in:%s:%s", kind, c.State.Status)
			again("%s: the listener closes", kind)
			if err := w.ce.CloseCompetition([]pc.CompetitionStateStatus{pc.CompetitionStateStatus_End, pc.CompetitionStateStatus_ForceEnd}[fr.Intn(2)]); err != nil {
				w.flag(P("C32"), "closing from inside %s returned %v", kind, err)
			}
		}
	}
}

// query uses the whole reading side of a competition.
func query(c *pc.Competition) {
	c.IsBreaking()
	c.CurrentBlindLevel()
	c.CurrentBlindData()
	c.PlayingPlayerCount()
	c.GetPlayerIndexMap()
	c.GetPlayerCountByStatus(pc.CompetitionPlayerStatus_Playing)
	c.FindPlayerIdx(func(p *pc.CompetitionPlayer) bool { return p.PlayerID == "nobody" })
	c.FindTableIdx(func(t *pokertable.Table) bool { return t.ID == "nowhere" })
	c.GetJSON()
}

// C41: mostly refused commands, the balancer's too
func init() {
	workloads["C41"] = func(res *Result) {
		for _, idx := range cases() {
			mark(idx)
			r := caseRand(vhProp, idx)
			if r.Intn(4) == 0 {
				reentCase(res, idx, r)
			} else {
				kinds := map[string]bool(nil)
				if of := []string{"C01", "C02", "C03", "C05", "C07", "C08", "C11", "C12", "C13", "C19", "C20", "C22", "C23", "C24", "C26", "C28", "C41"}[r.Intn(17)]; r.Intn(2) == 0 {
					for _, k := range faultKinds[of] {
						if kinds == nil {
							kinds = map[string]bool{}
						}
						kinds[k] = true
					}
					faultCase(res, idx, r, of, kinds)
				} else {
					faultCase(res, idx, r, of, nil)
				}
			}
			if res.NViol >= 40 {
				break
			}
		}
	}
}

// reentCase: tables that report from inside commands, listeners that call back, some commands failing.
func reentCase(res *Result, idx int, r *rand.Rand) {
	prof := profileOf([]string{"C32", "C05", "C11", "C19", "C24", "C26", "C28"}[r.Intn(7)], r)
	mode := prof.Modes[r.Intn(len(prof.Modes))]
	set := genSetting(r, mode, fmt.Sprintf("r%d", idx))
	if prof.Cfg != nil {
		prof.Cfg(r, &set)
	}
	p := *prof
	p.NoLedger = true
	w := newWorld(r, &p, set)
	w.loose = true
	if d := align(time.Now()).Sub(time.Now()); d > 0 {
		time.Sleep(d)
	}
	if w.create() {
		w.reentrant(r, pickI(r, 0, 0, 3, 8))
		late := 0
		for i := 0; i < p.Steps && !w.stop(); i++ {
			w.act()
			if w.cur != nil && ended(w.cur) {
				if late++; late > 8 {
					break
				}
			}
		}
		w.probes()
	}
	w.guard("teardown", func() { w.ce.CloseCompetition(pc.CompetitionStateStatus_ForceEnd) })
	res.add(idx, w, "reentrant:"+string(mode))
}

// probes: after all that, the competition still works.
func (w *World) probes() {
	w.be.Fault, w.be.OnCmd, w.listen = nil, nil, nil
	if w.stop() {
		return
	}
	c := w.cur
	mode := string(c.Meta.Mode)
	st := c.State.Status
	if open := st == pc.CompetitionStateStatus_Registering || st == pc.CompetitionStateStatus_DelayedBuyIn; !ended(c) {
		room := c.Meta.Mode == mtt || (len(c.State.Tables) > 0 && len(w.tables()) > 0 && len(w.be.freeSeats(w.tables()[0])) > 0)
		if c.Meta.Mode == ct && room {
			a, _, _, re := counts(c)
			room = a+re < c.State.Tables[0].Meta.TableMaxSeatCount
		}
		if room {
			before := c
			w.opBuyIn("probe", 321, 1)
			if w.stop() {
				return
			}
			p := findP(w.cur, "probe")
			w.hits[fmt.Sprintf("C32|%s|probe-buyin:%s", mode, st)]++
			switch {
			case open && (w.ret != nil || p == nil):
				w.flag(P("C32"), "afterwards an admissible buy-in is refused (%v) or forgotten", w.ret)
			case open && (p.Chips != 321 || len(w.cur.State.Players) != len(before.State.Players)+1):
				w.flag(P("C32"), "afterwards a buy-in of 321 chips is listed with %d, and %d players became %d", p.Chips, len(before.State.Players), len(w.cur.State.Players))
			case open && c.Meta.Mode != mtt && (p.CurrentSeat == unset || w.seatedAt("probe") == nil):
				w.flag(P("C32"), "afterwards a player who bought in gets no seat")
			case !open && w.ret == nil:
				w.flag(P("C32"), "afterwards a buy-in is accepted in status %s", st)
			}
		}
	}
	if w.stop() {
		return
	}
	w.pass(30 * time.Second)
	if w.stop() {
		return
	}
	was := w.cur
	w.opClose(pc.CompetitionStateStatus_ForceEnd)
	if w.stop() {
		return
	}
	w.hits[fmt.Sprintf("C32|%s|probe-close:%s:tables%d", mode, was.State.Status, len(was.State.Tables))]++
	if w.ret != nil {
		w.flag(P("C32"), "afterwards closing returns %v", w.ret)
	}
	if !ended(w.cur) {
		w.flag(P("C32"), "afterwards the closed competition is %s", w.cur.State.Status)
	}
	if !ended(was) && w.cur.State.Status != pc.CompetitionStateStatus_ForceEnd {
		w.flag(P("C32"), "afterwards the competition closed as ForceEnd is %s", w.cur.State.Status)
	}
	if w.settledEnd != 1 {
		w.flag(P("C32", "C01"), "the end was announced %d times", w.settledEnd)
	}
	if !ended(was) {
		for _, t := range was.State.Tables {
			if ft := w.be.Tables[t.ID]; ft != nil && !ft.Released && !ft.Closed {
				w.flag(P("C32"), "afterwards the close leaves table %s unreleased", t.ID)
			}
		}
	}
	seal := jsonOf(w.cur.State.Players)
	w.pass(400 * time.Second)
	if !w.stop() && !reflect.DeepEqual(seal, jsonOf(w.cur.State.Players)) {
		w.flag(P("C32", "C01"), "players changed after the end")
	}
}

func init() {
	workloads["C32"] = func(res *Result) {
		for _, idx := range cases() {
			mark(idx)
			r := caseRand(vhProp, idx)
			switch {
			case idx == 0:
				retryCase(res, idx, r)
			case idx == 1:
				lostCase(res, idx, r)
			case (idx/8)%2 == 0:
				faultCase(res, idx, r, []string{"C32", "C05", "C11", "C19", "C22", "C26", "C27", "C28"}[r.Intn(8)], nil)
			default:
				reentCase(res, idx, r)
			}
			if res.NViol >= 40 {
				break
			}
		}
	}
}
