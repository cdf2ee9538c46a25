package vh

// The trace specification: what one request, table report or timer must do to
// the published competition, which table commands it must issue and what it
// must announce. It is evaluated after the fact, step by step, against the
// recorded execution of the real engine.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
)

const unset = pc.UnsetValue

type Mismatch struct {
	Props []string `json:"props"`
	What  string   `json:"what"`
}

type rankEv struct {
	ID   string
	Rank int
}

func clonePlayer(p *pc.CompetitionPlayer) *pc.CompetitionPlayer {
	q := *p
	q.BestWinningCombo = cpStrs(p.BestWinningCombo)
	return &q
}

// cloneComp copies everything a competition publishes; tables are kept by reference.
func cloneComp(c *pc.Competition) *pc.Competition {
	d := *c
	d.Meta.Blind.Levels = append([]pc.BlindLevel(nil), c.Meta.Blind.Levels...)
	d.Meta.AddonSetting.RedeemChips = append([]int64(nil), c.Meta.AddonSetting.RedeemChips...)
	if c.State == nil {
		return &d
	}
	st := *c.State
	if c.State.BlindState != nil {
		b := *c.State.BlindState
		b.EndAts = append([]int64(nil), b.EndAts...)
		st.BlindState = &b
	}
	st.Players = make([]*pc.CompetitionPlayer, len(c.State.Players))
	for i, p := range c.State.Players {
		st.Players[i] = clonePlayer(p)
	}
	st.Tables = append([]*pokertable.Table(nil), c.State.Tables...)
	st.Rankings = make([]*pc.CompetitionRank, len(c.State.Rankings))
	for i, r := range c.State.Rankings {
		x := *r
		st.Rankings[i] = &x
	}
	if c.State.AdvanceState != nil {
		a := *c.State.AdvanceState
		a.UpdatedTableIDs = append([]string(nil), a.UpdatedTableIDs...)
		st.AdvanceState = &a
	}
	if c.State.Statistic != nil {
		s := *c.State.Statistic
		st.Statistic = &s
	}
	d.State = &st
	return &d
}

func ended(c *pc.Competition) bool {
	switch c.State.Status {
	case pc.CompetitionStateStatus_End, pc.CompetitionStateStatus_AutoEnd, pc.CompetitionStateStatus_ForceEnd:
		return true
	}
	return false
}

func curLevel(c *pc.Competition) pc.BlindLevel {
	i := c.State.BlindState.CurrentLevelIndex
	if i < 0 {
		return pc.BlindLevel{}
	}
	return c.Meta.Blind.Levels[i]
}

func breaking(c *pc.Competition) bool { return curLevel(c).Level == -1 }

func stopped(c *pc.Competition) bool {
	f := c.State.BlindState.FinalBuyInLevelIndex
	if f == pc.NoStopBuyInIndex {
		return false
	}
	if f == unset {
		return true
	}
	return c.State.BlindState.CurrentLevelIndex > f
}

func blindOf(c *pc.Competition) pokertable.TableBlindState {
	l := curLevel(c)
	d := int64(0)
	if c.Meta.Blind.DealerBlindTime > 0 {
		d = l.Ante * int64(c.Meta.Blind.DealerBlindTime-1)
	}
	return pokertable.TableBlindState{Level: l.Level, Ante: l.Ante, Dealer: d, SB: l.SB, BB: l.BB}
}

func tableMeta(c *pc.Competition) pokertable.TableMeta {
	m := c.Meta
	return pokertable.TableMeta{CompetitionID: c.ID, Rule: string(m.Rule), Mode: string(m.Mode), MaxDuration: m.MaxDuration,
		TableMaxSeatCount: m.TableMaxSeatCount, TableMinPlayerCount: m.TableMinPlayerCount, MinChipUnit: m.MinChipUnit, ActionTime: m.ActionTime}
}

func holders(c *pc.Competition) int {
	n := 0
	for _, p := range c.State.Players {
		if p.Chips > 0 {
			n++
		}
	}
	return n
}

func findP(c *pc.Competition, id string) *pc.CompetitionPlayer {
	for _, p := range c.State.Players {
		if p.PlayerID == id {
			return p
		}
	}
	return nil
}

func findT(c *pc.Competition, id string) (int, *pokertable.Table) {
	for i, t := range c.State.Tables {
		if t.ID == id {
			return i, t
		}
	}
	return -1, nil
}

func participants(ps []*pokertable.TablePlayerState) map[string]int {
	m := map[string]int{}
	for i, p := range ps {
		if p.IsIn && p.Bankroll > 0 {
			m[p.PlayerID] = i
		}
	}
	return m
}

func isCTorMTT(c *pc.Competition) bool { return c.Meta.Mode != pc.CompetitionMode_Cash }

// KnownOverfill: the pinned regulator library asks for a table with more players than seats.
const KnownOverfill = "C24/regulator-overfill"

// Spec evaluates one step.
type Spec struct {
	c     *pc.Competition // expected state, starts as the state before
	got   *pc.Competition
	sh    *Shadow
	now   time.Time
	cmds  []*Cmd
	used  []bool
	props []string
	op    string
	mm    []Mismatch

	rank     []rankEv        // rank announcements expected
	freeIDs  map[string]bool // announcements whose value is not specified
	cash     []*pc.CompetitionPlayer
	settledE int
	startedE int
	advAsk   []int
	needUpd  bool
	touched  map[string]bool // players that must have been announced
	seen     map[string]int  // concurrent requests: the commands matched so far, by player
	cmdErr   bool
	ownErr   bool // the competition reports an error of its own
	told     []error
	anyRank  bool // competition ranks refreshed in this step
	hits     []string
	freeRank map[string]bool // players in no rank group
	preC     *pc.Competition
	multi    bool
	ret      error // what the request returned
	rets     int   // table reports answered with an error
	known    string
	// competition ranks are specified after the operations that refresh them
	rankComparable bool
	notes          []note // state announcements expected (notes.go)
}

func (s *Spec) bad(props []string, f string, a ...interface{}) {
	s.mm = append(s.mm, Mismatch{Props: uniq(append(append([]string{}, props...), s.props...)), What: s.op + ": " + fmt.Sprintf(f, a...)})
}

// badF reports against the given properties only.
func (s *Spec) badF(props []string, f string, a ...interface{}) {
	s.mm = append(s.mm, Mismatch{Props: uniq(props), What: s.op + ": " + fmt.Sprintf(f, a...)})
}

func uniq(a []string) []string {
	m := map[string]bool{}
	out := []string{}
	for _, x := range a {
		if x != "" && !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return out
}

func P(ids ...string) []string { return ids }

func (s *Spec) hit(prop, f string, a ...interface{}) {
	s.hits = append(s.hits, prop+"|"+string(s.c.Meta.Mode)+"|"+fmt.Sprintf(f, a...))
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]string{}, a...), append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func joinKey(j []pokertable.JoinPlayer) []string {
	out := []string{}
	for _, x := range j {
		out = append(out, fmt.Sprintf("%s:%d:%d", x.PlayerID, x.RedeemChips, x.Seat))
	}
	return out
}
func joinIDs(j []pokertable.JoinPlayer) []string {
	out := []string{}
	for _, x := range j {
		out = append(out, x.PlayerID)
	}
	return out
}

func sameCmd(w, c *Cmd) bool {
	if w.Kind != c.Kind || w.Table != c.Table || w.GameCount != c.GameCount {
		return false
	}
	if !sameSet(joinKey(w.Joins), joinKey(c.Joins)) || !sameSet(w.Players, c.Players) {
		return false
	}
	if len(w.Participants) != len(c.Participants) {
		return false
	}
	for k, v := range w.Participants {
		if x, ok := c.Participants[k]; !ok || x != v {
			return false
		}
	}
	if (w.Blind == nil) != (c.Blind == nil) || (w.Blind != nil && *w.Blind != *c.Blind) {
		return false
	}
	return true
}

// cmd requires a command and returns what the table answered (nil when it was not issued).
func (s *Spec) cmd(want *Cmd, props ...string) *Cmd {
	near := -1
	for i, c := range s.cmds {
		if s.used[i] || c.Kind != want.Kind {
			continue
		}
		if sameCmd(want, c) {
			s.used[i] = true
			if c.Err != nil {
				s.cmdErr = true
			}
			s.inOrder(i, c)
			return c
		}
		if near < 0 || (c.Table == want.Table && s.cmds[near].Table != want.Table) {
			near = i
		}
	}
	if near >= 0 {
		c := s.cmds[near]
		s.used[near] = true
		if c.Err != nil {
			s.cmdErr = true
		}
		s.bad(props, "command differs: expected %s, table got %s", want, c)
		if c.Table == want.Table {
			return c
		}
		return nil
	}
	s.bad(props, "command missing: %s", want)
	return nil
}

// inOrder: requests issued together reach the table in the order in which they were applied, as far as
// that decides who sits there in the end.
func (s *Spec) inOrder(i int, c *Cmd) {
	if s.seen == nil {
		return
	}
	other := map[string]string{"PlayersLeave": "seat ", "PlayerReserve": "leave ", "PlayerRedeemChips": "leave "}[c.Kind]
	if other == "" {
		return
	}
	own := map[string]string{"seat ": "leave ", "leave ": "seat "}[other]
	ids := c.Players
	for _, j := range c.Joins {
		ids = append(ids, j.PlayerID)
	}
	for _, id := range ids {
		if last, ok := s.seen[other+id]; ok && last > i {
			s.bad(P("C31"), "%s and %s reached the table in the opposite order", s.cmds[last], c)
		}
		s.seen[own+id] = i
	}
}

// cmdProps: which properties an unexpected command of this kind breaks.
func cmdProps(kind string, op string, mode pc.CompetitionMode) []string {
	switch kind {
	case "SetUpTableGame":
		return P("C22", "C19")
	case "StartTableGame":
		return P("C02", "C19")
	case "UpdateBlind":
		return P("C20")
	case "PauseTable":
		return P("C26")
	case "CloseTable":
		return P("C25", "C23")
	case "ReleaseTable":
		return P("C01")
	case "CreateTable":
		return P("C24", "C04")
	case "UpdateTablePlayers":
		return P("C24", "C25", "C17")
	case "PlayerReserve":
		return P("C05", "C17")
	case "PlayerRedeemChips":
		return P("C07", "C17")
	case "PlayersLeave":
		switch mode {
		case pc.CompetitionMode_Cash:
			return P("C28", "C11")
		default:
			return P("C11", "C13", "C14")
		}
	}
	return nil
}

// ---- state derived from players

func counts(c *pc.Competition) (p, w, k, r int) {
	for _, x := range c.State.Players {
		switch x.Status {
		case pc.CompetitionPlayerStatus_Playing:
			p++
		case pc.CompetitionPlayerStatus_WaitingTableBalancing:
			w++
		case pc.CompetitionPlayerStatus_Knockout:
			k++
		case pc.CompetitionPlayerStatus_ReBuyWaiting:
			r++
		}
	}
	return
}

func (s *Spec) refreshCounts() {
	st := s.c.State.Statistic
	st.PlayingPlayerCount, st.WaitingTableBalancingPlayerCount, st.KnockoutPlayerCount, st.ReBuyWaitingPlayerCount = counts(s.c)
}

func gotCR(got *pc.Competition, id string) int {
	if p := findP(got, id); p != nil {
		return p.CompetitionRank
	}
	return 1 << 30
}

// refreshRanks: chip holders by chips (earlier joiner first), re-buy waiters (later bust first), knocked-out (last first).
// Equal keys have no specified order: the observed one is taken.
func (s *Spec) refreshRanks() {
	if ended(s.c) {
		return
	}
	s.anyRank = true
	var h, r []*pc.CompetitionPlayer
	free := map[string]bool{}
	for _, p := range s.c.State.Players {
		if p.Chips > 0 {
			h = append(h, p)
		} else if p.Status == pc.CompetitionPlayerStatus_ReBuyWaiting {
			r = append(r, p)
		} else {
			free[p.PlayerID] = true
		}
	}
	tie := func(a, b *pc.CompetitionPlayer) bool { return gotCR(s.got, a.PlayerID) < gotCR(s.got, b.PlayerID) }
	sort.SliceStable(h, func(i, j int) bool {
		if h[i].Chips != h[j].Chips {
			return h[i].Chips > h[j].Chips
		}
		if h[i].JoinAt != h[j].JoinAt {
			return h[i].JoinAt < h[j].JoinAt
		}
		return tie(h[i], h[j])
	})
	sort.SliceStable(r, func(i, j int) bool {
		if r[i].ReBuyWaitingAt != r[j].ReBuyWaitingAt {
			return r[i].ReBuyWaitingAt > r[j].ReBuyWaitingAt
		}
		return tie(r[i], r[j])
	})
	n := 1
	for _, p := range append(h, r...) {
		p.CompetitionRank = n
		n++
	}
	for i := len(s.c.State.Rankings) - 1; i >= 0; i-- {
		if p := findP(s.c, s.c.State.Rankings[i].PlayerID); p != nil {
			p.CompetitionRank = n
			delete(free, p.PlayerID)
			n++
		}
	}
	s.freeRank = free
	s.noteRanks()
}

// ---- building blocks

func (s *Spec) handleBreaking(tid string) {
	if !breaking(s.c) {
		return
	}
	lv := s.c.State.BlindState.CurrentLevelIndex
	k := fmt.Sprintf("%s|%d", tid, lv)
	if s.sh.Break[k] {
		return
	}
	s.sh.Break[k] = true
	at := time.Unix(s.c.State.BlindState.EndAts[lv]+1, 0)
	if at.Before(s.now) { // a break that is the last level has no end to resume at
		s.cmdErr, s.ownErr = true, true
		s.hit("C19", "break-forever")
		return
	}
	s.sh.add(&Timer{At: at, Kind: "resume", Table: tid, Level: lv})
}

func (s *Spec) updateBlind(tid string, props ...string) {
	b := blindOf(s.c)
	s.hit("C20", "level%d", s.c.State.BlindState.CurrentLevelIndex)
	s.cmd(&Cmd{Kind: "UpdateBlind", Table: tid, Blind: &b}, append(props, "C20")...)
}

func (s *Spec) activateBlind() {
	c := s.c
	ls := c.Meta.Blind.Levels
	cur := -1
	for i, l := range ls {
		if l.Level == s.sh.InitLevel {
			cur = i
		}
	}
	s.sh.BlindStarted = true
	s.sh.NActivated++
	bs := c.State.BlindState
	bs.CurrentLevelIndex = cur
	bs.FinalBuyInLevelIndex = c.Meta.Blind.FinalBuyInLevelIndex
	at := s.now.Unix()
	for i := range ls {
		if i < cur {
			bs.EndAts[i] = -1
			continue
		}
		if ls[i].Duration == -1 {
			bs.EndAts[i] = -1
			continue
		}
		at += int64(ls[i].Duration)
		bs.EndAts[i] = at
		if i+1 < len(ls) {
			s.sh.add(&Timer{At: time.Unix(at, 0), Kind: "level"})
		} else {
			s.sh.add(&Timer{At: time.Unix(at, 0), Kind: "lastLevel"})
		}
	}
	if stopped(c) {
		c.State.Status = pc.CompetitionStateStatus_StoppedBuyIn
		s.hit("C13", "stopped-from-start")
	} else {
		c.State.Status = pc.CompetitionStateStatus_DelayedBuyIn
	}
	s.noteBlind(pc.CompetitionStateEvent_BlindActivated)
}

func (s *Spec) initAdvancement() {
	c := s.c
	if c.Meta.Mode != pc.CompetitionMode_MTT {
		return
	}
	r := c.Meta.AdvanceSetting.Rule
	if r != pc.CompetitionAdvanceRule_PlayerCount && r != pc.CompetitionAdvanceRule_BlindLevel {
		return
	}
	a := c.State.AdvanceState
	if a.Status != pc.CompetitionAdvanceStatus_NotStart {
		return
	}
	if r == pc.CompetitionAdvanceRule_PlayerCount {
		s.advAsk = append(s.advAsk, c.State.Statistic.TotalBuyInCount)
		c.Meta.AdvanceSetting.PlayerCount = s.sh.AdvAnswer
	}
	a.Status = pc.CompetitionAdvanceStatus_Updating
	a.TotalTables = len(c.State.Tables)
	a.UpdatedTables = 0
	s.hit("C26", "init:%s", r)
}

func (s *Spec) env() *regEnv {
	return &regEnv{
		create: func(ps []string) (string, bool) { return s.createTable(ps) },
		assign: func(tid string, ps []string) {
			js := []pokertable.JoinPlayer{}
			for _, id := range ps {
				p := findP(s.c, id)
				if p == nil {
					continue
				}
				js = append(js, pokertable.JoinPlayer{PlayerID: id, RedeemChips: p.Chips, Seat: unset})
			}
			s.hit("C24", "assign%d", len(ps))
			s.cmd(&Cmd{Kind: "UpdateTablePlayers", Table: tid, Joins: js, Players: []string{}}, "C24", "C05", "C17")
		},
		pick: func(cand map[string]int) string {
			for i, c := range s.cmds {
				if s.used[i] || c.Kind != "UpdateTablePlayers" {
					continue
				}
				if _, ok := cand[c.Table]; ok {
					return c.Table
				}
			}
			ks := []string{}
			for k := range cand {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			return ks[0]
		},
	}
}

func (s *Spec) createTable(ps []string) (string, bool) {
	var cmd *Cmd
	for pass := 0; pass < 2 && cmd == nil; pass++ {
		for i, c := range s.cmds {
			if s.used[i] || c.Kind != "CreateTable" {
				continue
			}
			if pass == 1 || sameSet(joinIDs(c.Setting.JoinPlayers), ps) {
				s.used[i] = true
				cmd = c
				break
			}
		}
	}
	if cmd == nil {
		s.bad(P("C24", "C03"), "no table was created for %v", ps)
		return "", false
	}
	js := []pokertable.JoinPlayer{}
	for _, id := range ps {
		p := findP(s.c, id)
		if p == nil {
			continue
		}
		js = append(js, pokertable.JoinPlayer{PlayerID: id, RedeemChips: p.Chips, Seat: unset})
	}
	if !sameSet(joinKey(js), joinKey(cmd.Setting.JoinPlayers)) {
		s.bad(P("C24", "C17", "C03"), "table created with %v, expected %v", joinKey(cmd.Setting.JoinPlayers), joinKey(js))
	}
	if cmd.Setting.Meta != tableMeta(s.c) {
		s.bad(P("C04", "C24"), "table created with meta %+v, expected %+v", cmd.Setting.Meta, tableMeta(s.c))
	}
	if b := blindOf(s.c); cmd.Setting.Blind != b {
		s.bad(P("C20"), "table created with blinds %+v, current are %+v", cmd.Setting.Blind, b)
	}
	s.hit("C24", "create%d", len(ps))
	if len(ps) > s.c.Meta.TableMaxSeatCount {
		if overfillExpected(s.c) {
			s.known = KnownOverfill
		} else {
			s.bad(P("C24"), "table created with %d players for %d seats", len(ps), s.c.Meta.TableMaxSeatCount)
		}
	}
	if cmd.Err != nil || cmd.Created == nil {
		s.cmdErr = true
		return "", false
	}
	t := cmd.Created
	if t.State.Status == pokertable.TableStateStatus_TablePausing && breaking(s.c) {
		s.handleBreaking(t.ID)
	}
	s.c.State.Tables = append(s.c.State.Tables, t)
	s.needUpd = true
	s.noteTable(t.ID, true)
	return t.ID, true
}

func (s *Spec) activateRegulator() {
	c := s.c
	s.hit("C03", "activate:n%d", len(c.State.Players))
	if s.sh.Refunded {
		// the queue placed now is the one the refunds left
		s.props = uniq(append(P("C08"), s.props...))
		s.hit("C08", "placed-after-refund:n%d", len(s.sh.Waiting))
	}
	if !s.sh.BlindStarted {
		s.activateBlind()
	}
	s.sh.Reg.Add(s.sh.Waiting, s.env())
	s.sh.Waiting = nil
	s.sh.Reg.SetStatus(1, s.env())
	s.sh.RegOn = true
	if c.State.Status == pc.CompetitionStateStatus_StoppedBuyIn {
		s.initAdvancement()
		s.sh.Reg.SetStatus(2, s.env())
	}
}

func (s *Spec) shouldActivate() bool {
	return !s.sh.RegOn && s.sh.Started && len(s.c.State.Players) >= s.c.Meta.MinPlayerCount
}

// start is an accepted start.
func (s *Spec) start() {
	c := s.c
	c.State.StartAt = s.now.Unix()
	s.sh.Started = true
	s.startedE++
	s.needUpd = true
	switch c.Meta.Mode {
	case pc.CompetitionMode_CT:
		c.State.EndAt = c.State.StartAt + int64(c.Meta.MaxDuration)
		s.sh.add(&Timer{At: time.Unix(c.State.EndAt, 0), Kind: "ctEnd"})
	case pc.CompetitionMode_MTT:
		c.State.EndAt = unset
		if s.shouldActivate() {
			s.activateRegulator()
		}
	}
}

// tableCreatedReport is a CT or cash table reporting itself created and not started.
func (s *Spec) autoStart(t *pokertable.Table) {
	c := s.c
	if c.Meta.Mode == pc.CompetitionMode_MTT || c.State.Status != pc.CompetitionStateStatus_Registering {
		return
	}
	n := 0
	for _, x := range c.State.Tables {
		n += len(participants(x.State.PlayerStates))
	}
	if n < c.Meta.MinPlayerCount {
		s.hit("C02", "below:%d/%d", n, c.Meta.MinPlayerCount)
		return
	}
	if c.Meta.Mode == pc.CompetitionMode_CT && c.State.StartAt > 0 && s.now.Unix() < c.State.StartAt {
		s.hit("C02", "before-start-time:%d", n)
		return
	}
	if s.sh.Started {
		s.cmdErr, s.ownErr = true, true // a start by hand got there first: reported as an error
		return
	}
	s.hit("C02", "start:%d/%d:%v", n, c.Meta.MinPlayerCount, c.State.StartAt > 0)
	s.start()
	s.activateBlind()
	s.updateBlind(t.ID, "C02")
	s.cmd(&Cmd{Kind: "StartTableGame", Table: t.ID}, "C02")
	// the blinds reach the table before its first hand
	ub, sg := -1, -1
	for i, x := range s.cmds {
		if x.Table == t.ID && x.Kind == "UpdateBlind" && ub < 0 {
			ub = i
		}
		if x.Table == t.ID && x.Kind == "StartTableGame" && sg < 0 {
			sg = i
		}
	}
	if ub >= 0 && sg >= 0 && sg < ub {
		s.bad(P("C20", "C02"), "table %s was started before it got the blinds", t.ID)
	}
}

func (s *Spec) close(st pc.CompetitionStateStatus) {
	c := s.c
	if ended(c) || s.sh.Closed {
		return
	}
	s.sh.Closed = true
	s.hit("C01", "close:%s:%s:tables%d", c.State.Status, st, len(c.State.Tables))
	if c.State.Status == pc.CompetitionStateStatus_DelayedBuyIn || c.State.Status == pc.CompetitionStateStatus_StoppedBuyIn {
		var h []*pc.CompetitionPlayer
		for _, p := range c.State.Players {
			if p.Chips > 0 {
				h = append(h, p)
			}
		}
		pos := map[string]int{}
		for i, r := range s.got.State.Rankings {
			if _, ok := pos[r.PlayerID]; !ok {
				pos[r.PlayerID] = i
			}
		}
		sort.SliceStable(h, func(i, j int) bool {
			if h[i].Chips != h[j].Chips {
				return h[i].Chips > h[j].Chips
			}
			if h[i].JoinAt != h[j].JoinAt {
				return h[i].JoinAt < h[j].JoinAt
			}
			return pos[h[i].PlayerID] < pos[h[j].PlayerID]
		})
		s.hit("C15", "holders%d:out%d", len(h), len(c.State.Rankings))
		rk := []*pc.CompetitionRank{}
		for i, p := range h {
			rk = append(rk, &pc.CompetitionRank{PlayerID: p.PlayerID, FinalChips: p.Chips})
			s.rank = append(s.rank, rankEv{p.PlayerID, i + 1})
		}
		for i := len(c.State.Rankings) - 1; i >= 0; i-- {
			rk = append(rk, c.State.Rankings[i])
		}
		c.State.Rankings = rk
		for i, r := range rk {
			if p := findP(c, r.PlayerID); p != nil {
				p.CompetitionRank = i + 1
				delete(s.freeRank, p.PlayerID)
			}
		}
		s.anyRank = true
	}
	c.State.Status = st
	if c.Meta.Mode == pc.CompetitionMode_MTT {
		c.State.EndAt = s.now.Unix()
	}
	s.sh.BlindEnded = true
	s.settledE++
	s.needUpd = true
	for _, t := range c.State.Tables {
		s.cmd(&Cmd{Kind: "ReleaseTable", Table: t.ID}, "C01")
	}
}

func (s *Spec) knockout(p *pc.CompetitionPlayer) {
	p.Status = pc.CompetitionPlayerStatus_Knockout
	p.KnockoutAt = s.now.Unix()
	p.CurrentSeat = unset
	s.c.State.Rankings = append(s.c.State.Rankings, &pc.CompetitionRank{PlayerID: p.PlayerID})
}

// ---- requests

func errIn(err error, ok ...error) bool {
	for _, e := range ok {
		if err == e {
			return true
		}
	}
	return false
}

// verdict compares a request's result with the set of violated conditions; true when it was to be accepted.
func (s *Spec) verdict(err error, viol []error, props ...string) bool {
	if len(viol) == 0 {
		if err != nil {
			s.bad(props, "rejected (%v) although admissible", err)
		}
		return true
	}
	if err == nil {
		s.bad(props, "accepted although inadmissible (%v)", viol)
	} else if !errIn(err, viol...) {
		s.bad(props, "rejected with %q, expected one of %v", err, viol)
	}
	return false
}

func (s *Spec) buyIn(j pc.JoinPlayer, err error) {
	c := s.c
	p := findP(c, j.PlayerID)
	var viol []error
	if j.RedeemChips <= 0 {
		viol = append(viol, pc.ErrCompetitionNoRedeemChips)
	}
	st := c.State.Status
	if st != pc.CompetitionStateStatus_Registering && st != pc.CompetitionStateStatus_DelayedBuyIn {
		if p == nil {
			viol = append(viol, pc.ErrCompetitionBuyInRejected)
		} else {
			viol = append(viol, pc.ErrCompetitionReBuyRejected)
		}
	}
	if isCTorMTT(c) {
		if p != nil {
			if p.Status == pc.CompetitionPlayerStatus_Knockout || p.Status != pc.CompetitionPlayerStatus_ReBuyWaiting || p.Chips > 0 {
				viol = append(viol, pc.ErrCompetitionReBuyRejected)
			}
			if p.ReBuyTimes >= c.Meta.ReBuySetting.MaxTime {
				viol = append(viol, pc.ErrCompetitionExceedReBuyLimit)
			}
		} else if c.Meta.Mode == pc.CompetitionMode_CT {
			if len(c.State.Tables) == 0 {
				viol = append(viol, pc.ErrCompetitionTableNotFound)
			} else {
				a, _, _, r := counts(c)
				if a+r >= c.State.Tables[0].Meta.TableMaxSeatCount {
					viol = append(viol, pc.ErrCompetitionBuyInRejected)
				}
			}
		}
	}
	kind := "buyin"
	if p != nil {
		kind = "rebuy:" + string(p.Status)
	}
	if !s.verdict(err, viol, "C06") {
		s.hit("C06", "%s:%s:%v:reg%v", kind, st, viol, s.sh.RegOn)
		return
	}
	s.hit("C05", "%s:%s:reg%v:n%d", kind, st, s.sh.RegOn, len(c.State.Players))
	tid := ""
	status := pc.CompetitionPlayerStatus_Playing
	if c.Meta.Mode == pc.CompetitionMode_MTT {
		status = pc.CompetitionPlayerStatus_WaitingTableBalancing
	} else if len(c.State.Tables) > 0 {
		tid = c.State.Tables[0].ID
	}
	if p == nil {
		p = &pc.CompetitionPlayer{PlayerID: j.PlayerID, CurrentTableID: tid, CurrentSeat: unset, JoinAt: s.now.Unix(), ReBuyWaitingAt: unset, KnockoutAt: unset,
			Status: status, Rank: unset, TableRank: unset, CompetitionRank: unset, Chips: j.RedeemChips, ReBuyEndAt: unset, TotalBuyInUnits: j.Unit,
			BestWinningCombo: []string{}, TotalRedeemChips: j.RedeemChips}
		c.State.Players = append(c.State.Players, p)
		if isCTorMTT(c) {
			c.State.Statistic.TotalBuyInCount += j.Unit
		}
	} else {
		s.hit("C11", "rebuy:%v", p.IsReBuying)
		p.Status = status
		p.ReBuyWaitingAt = unset
		p.Chips += j.RedeemChips
		p.ReBuyTimes++
		p.IsReBuying = false
		p.ReBuyEndAt = unset
		p.TotalRedeemChips += j.RedeemChips
		if c.Meta.Mode == pc.CompetitionMode_MTT {
			p.CurrentTableID = ""
			p.CurrentSeat = unset
		} else if tid != "" {
			p.CurrentTableID = tid
		}
		if isCTorMTT(c) {
			p.TotalBuyInUnits += j.Unit
			c.State.Statistic.TotalBuyInCount += j.Unit
		}
	}
	s.sh.Ledger += j.RedeemChips
	s.needUpd = true
	s.noteStat(p.PlayerID)
	s.touched[p.PlayerID] = true
	s.refreshCounts()
	s.refreshRanks()
	if c.Meta.Mode != pc.CompetitionMode_MTT {
		s.cmd(&Cmd{Kind: "PlayerReserve", Table: tid, Joins: []pokertable.JoinPlayer{{PlayerID: j.PlayerID, RedeemChips: j.RedeemChips, Seat: unset}}}, "C05", "C17")
		return
	}
	if s.sh.RegOn {
		s.sh.Reg.Add([]string{j.PlayerID}, s.env())
	} else {
		s.sh.Waiting = append(cpStrs(s.sh.Waiting), j.PlayerID)
		if s.shouldActivate() {
			s.activateRegulator()
		}
	}
}

func (s *Spec) addon(tid string, j pc.JoinPlayer, err error) {
	c := s.c
	p := findP(c, j.PlayerID)
	var viol []error
	if j.RedeemChips <= 0 {
		viol = append(viol, pc.ErrCompetitionNoRedeemChips)
	}
	if p == nil || ended(c) {
		viol = append(viol, pc.ErrCompetitionAddonRejected)
	}
	if c.Meta.AddonSetting.IsBreakOnly && !breaking(c) {
		viol = append(viol, pc.ErrCompetitionAddonRejected)
	}
	if !curLevel(c).AllowAddon {
		viol = append(viol, pc.ErrCompetitionAddonRejected)
	}
	if p != nil && p.AddonTimes >= c.Meta.AddonSetting.MaxTime {
		viol = append(viol, pc.ErrCompetitionExceedAddonLimit)
	}
	if len(viol) > 0 {
		s.hit("C07", "refused:%s:%v:break%v", c.State.Status, viol, breaking(c))
		s.verdict(err, viol, "C07")
		return
	}
	cmd := s.cmd(&Cmd{Kind: "PlayerRedeemChips", Table: tid, Joins: []pokertable.JoinPlayer{{PlayerID: j.PlayerID, RedeemChips: j.RedeemChips, Seat: unset}}}, "C07", "C17")
	if cmd != nil && cmd.Err != nil {
		s.hit("C07", "table-refused:%s", c.State.Status)
		if err == nil {
			s.bad(P("C07", "C32"), "an add-on the table refused (%v) reported success", cmd.Err)
		}
		return
	}
	s.verdict(err, nil, "C07")
	s.hit("C07", "granted:%s:break%v:#%d", c.State.Status, breaking(c), p.AddonTimes)
	p.CurrentTableID = tid
	p.Chips += j.RedeemChips
	p.AddonTimes++
	p.TotalRedeemChips += j.RedeemChips
	if isCTorMTT(c) {
		c.State.Statistic.TotalAddonCount += j.Unit
	}
	s.sh.Ledger += j.RedeemChips
	s.needUpd = true
	s.noteStat(p.PlayerID)
	s.touched[p.PlayerID] = true
	s.refreshRanks()
}

func (s *Spec) refund(id string, err error) {
	c := s.c
	p := findP(c, id)
	var viol []error
	if p == nil || s.sh.BlindStarted {
		viol = append(viol, pc.ErrCompetitionRefundRejected)
	}
	if len(viol) > 0 {
		s.hit("C08", "refused:%s:%v", c.State.Status, p != nil)
		s.verdict(err, viol, "C08")
		return
	}
	s.hit("C08", "granted:%s:%s:started%v:n%d", c.State.Status, p.Status, s.sh.Started, len(c.State.Players))
	s.sh.Ledger -= p.Chips
	if isCTorMTT(c) {
		c.State.Statistic.TotalBuyInCount -= p.TotalBuyInUnits
	}
	s.drop(id)
	s.refreshCounts()
	s.needUpd = true
	s.noteStat(id)
	w := []string{}
	for _, x := range s.sh.Waiting {
		if x != id {
			w = append(w, x)
		} else {
			s.sh.Refunded = true
		}
	}
	s.sh.Waiting = w
	if c.Meta.Mode == pc.CompetitionMode_CT && p.CurrentTableID != "" {
		cmd := s.cmd(&Cmd{Kind: "PlayersLeave", Table: p.CurrentTableID, Players: []string{id}}, "C08")
		if cmd != nil && cmd.Err != nil {
			return // its error may be returned
		}
	}
	s.verdict(err, nil, "C08")
}

func (s *Spec) drop(id string) {
	ps := []*pc.CompetitionPlayer{}
	for _, p := range s.c.State.Players {
		if p.PlayerID != id {
			ps = append(ps, p)
		}
	}
	s.c.State.Players = ps
}

// payOut: the players leave the table and the competition and are paid.
func (s *Spec) payOut(tid string, ids []string, props ...string) {
	s.cmd(&Cmd{Kind: "PlayersLeave", Table: tid, Players: ids}, append(props, "C28")...)
	for _, id := range ids {
		p := findP(s.c, id)
		if p == nil {
			continue
		}
		s.cash = append(s.cash, clonePlayer(p))
		s.sh.Ledger -= p.Chips
		s.drop(id)
	}
	s.refreshCounts()
	s.notePaid(ids)
}

func (s *Spec) cashOut(tid, id string, err error) {
	c := s.c
	p := findP(c, id)
	if p == nil || c.Meta.Mode != pc.CompetitionMode_Cash {
		s.hit("C28", "refused:%v", p != nil)
		s.verdict(err, []error{pc.ErrCompetitionLeaveRejected}, "C28")
		return
	}
	s.verdict(err, nil, "C28")
	p.Status = pc.CompetitionPlayerStatus_CashLeaving
	s.touched[id] = true
	s.refreshCounts()
	now := c.State.Status == pc.CompetitionStateStatus_Registering
	if c.State.Status == pc.CompetitionStateStatus_DelayedBuyIn && len(c.State.Tables) > 0 && c.State.Tables[0].State.Status == pokertable.TableStateStatus_TablePausing {
		now = true
	}
	s.hit("C28", "asked:%s:now%v:chips%v", c.State.Status, now, p.Chips > 0)
	if now {
		s.payOut(tid, []string{id})
	}
}

func (s *Spec) quit(tid, id string, err error) {
	c := s.c
	p := findP(c, id)
	_, t := findT(c, tid)
	if c.Meta.Mode != pc.CompetitionMode_CT || p == nil || t == nil || stopped(c) {
		s.hit("C12", "refused:%v:%v:%v", p != nil, t != nil, stopped(c))
		s.verdict(err, []error{pc.ErrCompetitionQuitRejected}, "C12")
		return
	}
	cmd := s.cmd(&Cmd{Kind: "PlayersLeave", Table: tid, Players: []string{id}}, "C12")
	if cmd != nil && cmd.Err != nil {
		s.hit("C12", "table-refused:%s", p.Status)
		return // either result
	}
	s.verdict(err, nil, "C12")
	s.hit("C12", "quit:%s:%s:rebuying%v:chips%v", c.State.Status, p.Status, p.IsReBuying, p.Chips > 0)
	p.Status = pc.CompetitionPlayerStatus_ReBuyWaiting
	p.IsReBuying = false
	p.ReBuyEndAt = unset
	p.CurrentSeat = unset
	s.touched[id] = true
	s.refreshCounts()
	s.noteOut("quit", []string{id}, pc.CompetitionPlayerStatus_ReBuyWaiting)
}

func (s *Spec) startReq(at int64, err error) {
	if s.sh.Started || ended(s.c) {
		s.hit("C03", "restart:%s", s.c.State.Status)
		s.verdict(err, []error{pc.ErrCompetitionStartRejected}, "C03")
		return
	}
	s.verdict(err, nil, "C03")
	s.hit("C03", "start:n%d/%d:at%v", len(s.c.State.Players), s.c.Meta.MinPlayerCount, s.c.State.StartAt > 0)
	s.start()
	if at != s.now.Unix() {
		s.bad(P("C03"), "start returned %d, started at %d", at, s.now.Unix())
	}
}

func (s *Spec) closeReq(st pc.CompetitionStateStatus, err error) {
	if err != nil {
		s.bad(P("C01"), "close returned %v", err)
	}
	if ended(s.c) {
		s.hit("C01", "reclose:%s:%s", s.c.State.Status, st)
		return
	}
	s.close(st)
}

func (s *Spec) updInit(level int, err error) {
	if s.c.State.Status != pc.CompetitionStateStatus_Registering {
		s.hit("C21", "init-refused:%s", s.c.State.Status)
		s.verdict(err, []error{pc.ErrCompetitionUpdateBlindInitialLevelRejected}, "C21", "C13")
		return
	}
	s.verdict(err, nil, "C21")
	s.hit("C21", "init")
	s.sh.InitLevel = level
}

func (s *Spec) autoEnd(tid string, err error) {
	_, t := findT(s.c, tid)
	if t == nil {
		s.hit("C23", "autoend-unknown")
		s.verdict(err, []error{pc.ErrCompetitionTableNotFound}, "C23")
		return
	}
	if err != nil {
		s.bad(P("C23"), "auto-open end returned %v", err)
	}
	s.hit("C23", "autoend:%s", s.c.State.Status)
	if s.c.Meta.Mode == pc.CompetitionMode_CT && s.c.State.Status == pc.CompetitionStateStatus_StoppedBuyIn {
		s.close(pc.CompetitionStateStatus_End)
	}
}

// ---- table reports

func (s *Spec) reserved(tid string, p *pokertable.TablePlayerState) {
	if ended(s.c) {
		s.hit("C01", "late-reserved:%s", s.c.State.Status)
		return
	}
	cp := findP(s.c, p.PlayerID)
	if cp == nil {
		s.hit("C27", "reserved-unknown")
		return
	}
	s.hit("C27", "reserved:%s", cp.Status)
	s.hit("C24", "reserved:%s", cp.Status)
	cp.CurrentSeat = p.Seat
	cp.CurrentTableID = tid
	cp.Status = pc.CompetitionPlayerStatus_Playing
	s.touched[p.PlayerID] = true
	s.needUpd = true
	s.refreshCounts()
}

func (s *Spec) ready(tid string, gc int, ps []*pokertable.TablePlayerState) {
	if ended(s.c) {
		s.hit("C01", "late-ready:%s", s.c.State.Status)
		return
	}
	s.hit("C22", "ready:%d/%d", len(participants(ps)), len(ps))
	s.cmd(&Cmd{Kind: "SetUpTableGame", Table: tid, GameCount: gc, Participants: participants(ps)}, "C22")
}

func (s *Spec) report(t *pokertable.Table) {
	c := s.c
	i, _ := findT(c, t.ID)
	if i < 0 {
		s.hit("C18", "foreign:%s", t.State.Status)
		return
	}
	if ended(c) {
		s.hit("C01", "late-report:%s", t.State.Status)
		return
	}
	c.State.Tables = append([]*pokertable.Table(nil), c.State.Tables...)
	c.State.Tables[i] = t
	s.hit("C18", "%s:tables%d:%s", t.State.Status, len(c.State.Tables), c.State.Status)
	switch t.State.Status {
	case pokertable.TableStateStatus_TableCreated:
		s.autoStart(t)
	case pokertable.TableStateStatus_TablePausing:
		s.pausing(t)
	case pokertable.TableStateStatus_TableClosed:
		for k := range s.sh.Break {
			if strings.HasPrefix(k, t.ID+"|") {
				delete(s.sh.Break, k)
			}
		}
		c.State.Tables = append(append([]*pokertable.Table(nil), c.State.Tables[:i]...), c.State.Tables[i+1:]...)
		s.needUpd = true
		s.noteTable(t.ID, false)
		s.hit("C23", "closed-left%d", len(c.State.Tables))
		if len(c.State.Tables) == 0 {
			s.close(pc.CompetitionStateStatus_End)
		}
	case pokertable.TableStateStatus_TableGameSettled:
		s.settled(t)
	}
}

func (s *Spec) pausing(t *pokertable.Table) {
	c := s.c
	parts := participants(t.State.PlayerStates)
	open := len(parts) >= c.Meta.TableMinPlayerCount && !breaking(c)
	if c.Meta.Mode == pc.CompetitionMode_CT && c.State.Status != pc.CompetitionStateStatus_DelayedBuyIn {
		open = false
	}
	s.hit("C22", "pausing:%s:open%v:break%v:%d/%d", c.State.Status, open, breaking(c), len(parts), len(t.State.PlayerStates))
	if breaking(c) {
		s.hit("C19", "pausing-in-break:%d", len(parts))
	}
	if open {
		s.cmd(&Cmd{Kind: "SetUpTableGame", Table: t.ID, GameCount: t.State.GameCount + 1, Participants: parts}, "C22")
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (s *Spec) settled(t *pokertable.Table) {
	c := s.c
	key := fmt.Sprintf("%s|%d", t.ID, t.State.GameCount)
	if s.sh.Settled[key] {
		s.hit("C09", "repeat:%s", c.State.Status)
		s.hit("C10", "repeat:%s", c.State.Status)
		return
	}
	s.sh.Settled[key] = true
	s.handStats(t)
	s.handChips(t)
	stop := stopped(c)

	// re-buy windows
	var window []string
	reBuyEnd := s.now.Add(time.Duration(c.Meta.ReBuySetting.WaitingTime) * time.Second).Unix()
	if !stop {
		for _, tp := range t.State.PlayerStates {
			p := findP(c, tp.PlayerID)
			if tp.Bankroll > 0 || p == nil || p.IsReBuying || p.ReBuyTimes >= c.Meta.ReBuySetting.MaxTime {
				continue
			}
			s.hit("C11", "bust:%s:times%d/%d", p.Status, p.ReBuyTimes, c.Meta.ReBuySetting.MaxTime)
			p.Status = pc.CompetitionPlayerStatus_ReBuyWaiting
			p.ReBuyWaitingAt = s.now.Unix()
			p.IsReBuying = true
			p.ReBuyEndAt = reBuyEnd
			if c.Meta.Mode == pc.CompetitionMode_MTT {
				p.CurrentSeat = unset
				p.ReBuyEndAt = unset
			}
			window = append(window, tp.PlayerID)
			s.touched[tp.PlayerID] = true
		}
		if len(window) > 0 && c.Meta.Mode != pc.CompetitionMode_MTT {
			s.sh.add(&Timer{At: time.Unix(reBuyEnd+2, 0), Kind: "lapse", Table: t.ID, IDs: window})
		}
	}

	// knock-outs
	var out []*pc.CompetitionPlayer
	for _, tp := range t.State.PlayerStates {
		p := findP(c, tp.PlayerID)
		if tp.Bankroll > 0 || p == nil || p.Status == pc.CompetitionPlayerStatus_Knockout {
			continue
		}
		if !stop && p.ReBuyTimes < c.Meta.ReBuySetting.MaxTime {
			continue
		}
		out = append(out, p)
	}
	outIDs := s.knockOuts(out)

	closing := false
	switch c.Meta.Mode {
	case pc.CompetitionMode_CT:
		if len(outIDs) > 0 {
			s.cmd(&Cmd{Kind: "PlayersLeave", Table: t.ID, Players: outIDs}, "C14", "C11")
		}
		over := s.now.Unix() > t.State.StartAt+int64(c.Meta.MaxDuration)
		few := stop && aliveCount(t) < c.Meta.TableMinPlayerCount
		closing = over || few
		s.hit("C23", "ct-settled:over%v:stop%v:alive%d", over, stop, aliveCount(t))
	case pc.CompetitionMode_Cash:
		ids := []string{}
		for _, p := range c.State.Players {
			if p.Status == pc.CompetitionPlayerStatus_CashLeaving {
				ids = append(ids, p.PlayerID)
				s.hit("C28", "leave-on-settle:chips%v", p.Chips > 0)
			}
		}
		if len(ids) > 0 {
			s.payOut(t.ID, ids)
		}
		closing = s.now.Unix() > t.State.StartAt+int64(c.Meta.MaxDuration)
		s.hit("C23", "cash-settled:over%v", closing)
	case pc.CompetitionMode_MTT:
		closing = s.settledMTT(t)
	}
	s.handleBreaking(t.ID)
	s.refreshCounts()
	s.refreshRanks()
	s.hit("C16", "settled:n%d:out%d", len(c.State.Players), len(c.State.Rankings))
	if closing {
		s.sh.add(&Timer{At: s.now.Add(3 * time.Second), Kind: "closeT"})
	}
	s.sh.add(&Timer{At: s.now.Add(500 * time.Millisecond), Kind: "emit"})
}

// knockOuts knocks the given players out, last joiner first.
func (s *Spec) knockOuts(out []*pc.CompetitionPlayer) []string {
	pos := map[string]int{}
	for i, r := range s.got.State.Rankings {
		if _, ok := pos[r.PlayerID]; !ok {
			if ended(s.got) {
				i = -i // final rankings are listed best first
			}
			pos[r.PlayerID] = i
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].JoinAt != out[j].JoinAt {
			return out[i].JoinAt > out[j].JoinAt
		}
		return pos[out[i].PlayerID] < pos[out[j].PlayerID]
	})
	ids := []string{}
	for i, p := range out {
		s.knockout(p)
		s.touched[p.PlayerID] = true
		ids = append(ids, p.PlayerID)
		r := holders(s.c) + len(out) - i
		if stopped(s.c) {
			s.rank = append(s.rank, rankEv{p.PlayerID, r})
			s.hit("C14", "out:%d of %d:left%d", i, len(out), holders(s.c))
		} else {
			s.freeIDs[p.PlayerID] = true
			s.hit("C14", "out-delayed:times%d", p.ReBuyTimes)
		}
	}
	return ids
}

func (s *Spec) settledMTT(t *pokertable.Table) bool {
	c := s.c
	var zero, alive []string
	for _, p := range t.State.PlayerStates {
		if p.Bankroll <= 0 {
			zero = append(zero, p.PlayerID)
		} else {
			alive = append(alive, p.PlayerID)
		}
	}
	a := c.State.AdvanceState
	if a.Status == pc.CompetitionAdvanceStatus_Updating {
		a.TotalTables = len(c.State.Tables)
		pause := false
		switch c.Meta.AdvanceSetting.Rule {
		case pc.CompetitionAdvanceRule_BlindLevel:
			pause = curLevel(c).Level >= c.Meta.AdvanceSetting.BlindLevel
		case pc.CompetitionAdvanceRule_PlayerCount:
			pause = holders(c) < c.Meta.AdvanceSetting.PlayerCount
		}
		s.hit("C26", "settle:%s:pause%v:tables%d/%d", c.Meta.AdvanceSetting.Rule, pause, a.UpdatedTables, a.TotalTables)
		if pause {
			cmd := s.cmd(&Cmd{Kind: "PauseTable", Table: t.ID}, "C26")
			if cmd != nil && cmd.Err != nil {
				return false
			}
			a.UpdatedTables++
			a.UpdatedTableIDs = append(a.UpdatedTableIDs, t.ID)
			if a.TotalTables == a.UpdatedTables {
				a.Status = pc.CompetitionAdvanceStatus_End
				return true
			}
			return false
		}
		s.balance(t, alive, zero)
		return false
	}
	s.balance(t, alive, zero)
	cl := !ended(c) && stopped(c) && len(alive) == 1 && len(c.State.Tables) == 1
	s.hit("C23", "mtt-settled:stop%v:alive%d:tables%d", stopped(c), len(alive), len(c.State.Tables))
	return cl
}

func (s *Spec) balance(t *pokertable.Table, alive, zero []string) {
	c := s.c
	rel, newIDs, ok := s.sh.Reg.Sync(t.ID, len(zero))
	if !ok {
		s.cmdErr, s.ownErr = true, true // reported as an error
		return
	}
	released := []string{}
	for i, id := range t.State.NextBBOrderPlayerIDs {
		if i < rel {
			released = append(released, id)
		}
	}
	leave := append(append([]string{}, released...), zero...)
	js := []pokertable.JoinPlayer{}
	for _, id := range newIDs {
		p := findP(c, id)
		if p == nil || p.Chips <= 0 {
			continue
		}
		js = append(js, pokertable.JoinPlayer{PlayerID: id, RedeemChips: p.Chips, Seat: unset})
	}
	s.hit("C25", "stop%v:zero%d:rel%d:new%d:tables%d", stopped(c), len(zero), len(released), len(js), len(c.State.Tables))
	left := len(t.State.PlayerStates)
	if len(js)+len(leave) > 0 {
		cmd := s.cmd(&Cmd{Kind: "UpdateTablePlayers", Table: t.ID, Joins: js, Players: leave}, "C25", "C24")
		if cmd == nil || cmd.Err != nil {
			// nothing moves
			if cmd == nil {
				return
			}
		} else {
			left = len(cmd.Seats)
			for _, id := range released {
				if p := findP(c, id); p != nil {
					p.CurrentTableID = ""
					p.CurrentSeat = unset
					p.Status = pc.CompetitionPlayerStatus_WaitingTableBalancing
					s.touched[id] = true
				}
			}
			if len(released) > 0 {
				s.sh.Reg.enter(released, s.env())
			}
			for _, j := range js {
				seat, ok := cmd.Seats[j.PlayerID]
				p := findP(c, j.PlayerID)
				if !ok || p == nil {
					continue
				}
				p.CurrentTableID = t.ID
				p.CurrentSeat = seat
				p.Status = pc.CompetitionPlayerStatus_Playing
				s.touched[j.PlayerID] = true
			}
		}
	}
	if left <= 0 {
		s.cmd(&Cmd{Kind: "CloseTable", Table: t.ID}, "C25")
	}
}

func (s *Spec) handStats(t *pokertable.Table) {
	c := s.c
	pf := 0
	for _, tp := range t.State.PlayerStates {
		p := findP(c, tp.PlayerID)
		if !tp.IsParticipated || p == nil {
			continue
		}
		g := tp.GameStatistics
		p.TotalGameCounts++
		if g.IsFold {
			p.TotalFoldTimes++
			switch g.FoldRound {
			case "preflop":
				p.TotalPreflopFoldTimes++
				pf++
			case "flop":
				p.TotalFlopFoldTimes++
			case "turn":
				p.TotalTurnFoldTimes++
			case "river":
				p.TotalRiverFoldTimes++
			}
		}
		p.TotalActionTimes += g.ActionTimes
		p.TotalRaiseTimes += g.RaiseTimes
		p.TotalCallTimes += g.CallTimes
		p.TotalCheckTimes += g.CheckTimes
		p.TotalVPIPChances += b2i(g.IsVPIPChance)
		p.TotalVPIPTimes += b2i(g.IsVPIP)
		p.TotalPFRChances += b2i(g.IsPFRChance)
		p.TotalPFRTimes += b2i(g.IsPFR)
		p.TotalATSChances += b2i(g.IsATSChance)
		p.TotalATSTimes += b2i(g.IsATS)
		p.Total3BChances += b2i(g.Is3BChance)
		p.Total3BTimes += b2i(g.Is3B)
		p.TotalFt3BChances += b2i(g.IsFt3BChance)
		p.TotalFt3BTimes += b2i(g.IsFt3B)
		p.TotalCheckRaiseChances += b2i(g.IsCheckRaiseChance)
		p.TotalCheckRaiseTimes += b2i(g.IsCheckRaise)
		p.TotalCBetChances += b2i(g.IsCBetChance)
		p.TotalCBetTimes += b2i(g.IsCBet)
		p.TotalFtCBChances += b2i(g.IsFtCBChance)
		p.TotalFtCBTimes += b2i(g.IsFtCB)
		p.TotalShowdownWinningChances += b2i(g.ShowdownWinningChance)
		p.TotalShowdownWinningTimes += b2i(g.IsShowdownWinning)
		s.hit("C10", "fold%v:%s", g.IsFold, g.FoldRound)
	}
	for _, r := range t.State.GameState.Result.Players {
		if r.Changed <= 0 {
			continue
		}
		tp := t.State.PlayerStates[t.State.GamePlayerIndexes[r.Idx]]
		p := findP(c, tp.PlayerID)
		if p == nil {
			continue
		}
		p.TotalProfitTimes++
		if tp.Seat == t.State.CurrentBBSeat && tp.GameStatistics.ActionTimes == 0 && pf == len(t.State.GamePlayerIndexes)-1 {
			p.TotalWalkTimes++
			s.hit("C10", "walk:%d", len(t.State.GamePlayerIndexes))
		}
		if r.Changed > p.BestWinningPotChips {
			p.BestWinningPotChips = r.Changed
		}
		for _, gp := range t.State.GameState.Players {
			if gp.Idx == r.Idx && gp.Combination.Power >= p.BestWinningPower {
				s.hit("C10", "best:eq%v", gp.Combination.Power == p.BestWinningPower)
				p.BestWinningPower = gp.Combination.Power
				p.BestWinningCombo = cpStrs(gp.Combination.Cards)
				p.BestWinningType = gp.Combination.Type
			}
		}
	}
}

func (s *Spec) handChips(t *pokertable.Table) {
	c := s.c
	in := map[int]bool{}
	var ps []*pokertable.TablePlayerState
	for _, i := range t.State.GamePlayerIndexes {
		in[i] = true
		ps = append(ps, t.State.PlayerStates[i])
	}
	joinAt := func(tp *pokertable.TablePlayerState) int64 {
		if p := findP(c, tp.PlayerID); p != nil {
			return p.JoinAt
		}
		return 0
	}
	sort.SliceStable(ps, func(i, j int) bool {
		if ps[i].Bankroll != ps[j].Bankroll {
			return ps[i].Bankroll > ps[j].Bankroll
		}
		return joinAt(ps[i]) < joinAt(ps[j])
	})
	// equal keys have no specified order: everybody gets the observed place if it is one of theirs
	for a := 0; a < len(ps); {
		b := a + 1
		for b < len(ps) && ps[b].Bankroll == ps[a].Bankroll && joinAt(ps[b]) == joinAt(ps[a]) {
			b++
		}
		slot := make([]*pokertable.TablePlayerState, b-a)
		var rest []*pokertable.TablePlayerState
		for _, tp := range ps[a:b] {
			if p := findP(s.got, tp.PlayerID); p != nil && p.TableRank-1 >= a && p.TableRank-1 < b && slot[p.TableRank-1-a] == nil {
				slot[p.TableRank-1-a] = tp
			} else {
				rest = append(rest, tp)
			}
		}
		for i := range slot {
			if slot[i] == nil {
				slot[i], rest = rest[0], rest[1:]
			}
		}
		copy(ps[a:b], slot)
		a = b
	}
	set := func(tp *pokertable.TablePlayerState, rank int) {
		if p := findP(c, tp.PlayerID); p != nil {
			p.Rank, p.TableRank, p.Chips = rank, rank, tp.Bankroll
			s.touched[tp.PlayerID] = true
		}
	}
	for i, tp := range ps {
		set(tp, i+1)
	}
	out := 0
	for i, tp := range t.State.PlayerStates {
		if !in[i] {
			set(tp, 0)
			out++
		}
	}
	s.hit("C09", "hand:in%d:out%d", len(ps), out)
	s.hit("C17", "hand:in%d:out%d", len(ps), out)
}

// ---- timers

func (s *Spec) timer(tm *Timer) {
	c := s.c
	switch tm.Kind {
	case "level":
		if s.sh.BlindEnded || ended(c) {
			s.hit("C01", "late-level")
			return
		}
		s.level()
	case "lastLevel", "emit":
		s.hit("C21", "%s", tm.Kind)
	case "startAt":
		if c.State.Status != pc.CompetitionStateStatus_Registering {
			s.hit("C03", "start-time-late:%s", c.State.Status)
			return
		}
		if c.Meta.Mode == pc.CompetitionMode_MTT {
			if s.sh.Started {
				s.hit("C03", "start-time-started")
				return
			}
			s.hit("C03", "start-time:n%d/%d", len(c.State.Players), c.Meta.MinPlayerCount)
			s.start()
			return
		}
		for _, t := range c.State.Tables {
			if t.State.Status == pokertable.TableStateStatus_TableCreated {
				s.hit("C02", "start-time")
				s.autoStart(t)
			}
		}
	case "disable":
		s.hit("C03", "disable:%s:%d/%d", c.State.Status, len(c.State.Players), c.Meta.MinPlayerCount)
		if c.State.Status == pc.CompetitionStateStatus_Registering && len(c.State.Players) < c.Meta.MinPlayerCount {
			s.close(pc.CompetitionStateStatus_AutoEnd)
		}
	case "ctEnd":
		if ended(c) || len(c.State.Tables) == 0 {
			return
		}
		t := c.State.Tables[0]
		busy := statusIn(t.State.Status, pokertable.TableStateStatus_TableGameOpened, pokertable.TableStateStatus_TableGamePlaying,
			pokertable.TableStateStatus_TableGameSettled, pokertable.TableStateStatus_TableClosed)
		s.hit("C23", "ct-end:%s", t.State.Status)
		if !busy {
			s.cmd(&Cmd{Kind: "CloseTable", Table: t.ID}, "C23")
		}
	case "closeT":
		s.hit("C23", "close-timer:ended%v", ended(c))
		s.close(pc.CompetitionStateStatus_End)
	case "resume":
		s.resume(tm)
	case "lapse":
		s.lapse(tm)
	}
}

func (s *Spec) resume(tm *Timer) {
	c := s.c
	_, t := findT(c, tm.Table)
	if ended(c) || breaking(c) || t == nil {
		s.hit("C19", "no-resume:ended%v:break%v:gone%v", ended(c), breaking(c), t == nil)
		return
	}
	if aliveCount(t) < t.Meta.TableMinPlayerCount {
		s.hit("C19", "no-resume:alive%d", aliveCount(t))
		return
	}
	parts := participants(t.State.PlayerStates)
	s.hit("C19", "resume:gc%v:parts%d/%d:%s", t.State.GameCount > 0, len(parts), len(t.State.PlayerStates), t.State.Status)
	if t.State.GameCount > 0 {
		s.cmd(&Cmd{Kind: "SetUpTableGame", Table: t.ID, GameCount: t.State.GameCount + 1, Participants: parts}, "C19")
	} else if len(parts) >= c.Meta.TableMinPlayerCount {
		s.cmd(&Cmd{Kind: "StartTableGame", Table: t.ID}, "C19")
	}
}

func (s *Spec) lapse(tm *Timer) {
	c := s.c
	if ended(c) {
		s.hit("C11", "lapse-ended")
		return
	}
	ids := []string{}
	for _, id := range tm.IDs {
		p := findP(c, id)
		if p == nil || p.Chips > 0 || s.now.Unix() <= p.ReBuyEndAt {
			s.hit("C11", "no-lapse:gone%v", p == nil)
			continue
		}
		if c.Meta.Mode == pc.CompetitionMode_CT {
			if p.Status != pc.CompetitionPlayerStatus_ReBuyWaiting || !p.IsReBuying {
				s.hit("C11", "no-lapse:%s:%v", p.Status, p.IsReBuying)
				continue
			}
			p.IsReBuying = false
			p.ReBuyEndAt = unset
			p.CurrentSeat = unset
			s.touched[id] = true
		}
		ids = append(ids, id)
	}
	if len(ids) == 0 {
		return
	}
	s.hit("C11", "lapse:%d", len(ids))
	if c.Meta.Mode == pc.CompetitionMode_CT {
		s.cmd(&Cmd{Kind: "PlayersLeave", Table: tm.Table, Players: ids}, "C11")
		s.refreshCounts()
		s.needUpd = true
		return
	}
	s.hit("C28", "lapse:%d", len(ids))
	s.payOut(tm.Table, ids, "C11")
}

func (s *Spec) level() {
	c := s.c
	c.State.BlindState.CurrentLevelIndex++
	s.hit("C21", "level%d:%s", c.State.BlindState.CurrentLevelIndex, c.State.Status)
	for _, t := range c.State.Tables {
		s.updateBlind(t.ID)
		s.handleBreaking(t.ID)
	}
	s.needUpd = true
	s.noteBlind(pc.CompetitionStateEvent_BlindUpdated)
	if !stopped(c) || c.State.Status == pc.CompetitionStateStatus_StoppedBuyIn {
		return
	}
	s.initAdvancement()
	c.State.Status = pc.CompetitionStateStatus_StoppedBuyIn
	if c.Meta.Mode == pc.CompetitionMode_MTT {
		s.sh.Reg.SetStatus(2, s.env())
	}
	var out []*pc.CompetitionPlayer
	re := map[string]bool{}
	for _, p := range c.State.Players {
		if p.Chips == 0 && p.Status == pc.CompetitionPlayerStatus_ReBuyWaiting {
			out = append(out, p)
			re[p.PlayerID] = c.Meta.Mode == pc.CompetitionMode_CT && p.IsReBuying && p.ReBuyEndAt != unset
			s.hit("C13", "out:rebuying%v", re[p.PlayerID])
		} else if p.Chips == 0 {
			s.hit("C13", "keep:%s", p.Status)
		}
	}
	ids := s.knockOuts(out)
	for _, id := range ids {
		p := findP(c, id)
		p.IsReBuying = false
		p.ReBuyEndAt = unset
		if re[id] && len(c.State.Tables) > 0 {
			s.cmd(&Cmd{Kind: "PlayersLeave", Table: c.State.Tables[0].ID, Players: []string{id}}, "C13")
		}
	}
	s.hit("C13", "stop:out%d:n%d:tables%d", len(out), len(c.State.Players), len(c.State.Tables))
	s.refreshCounts()
	s.refreshRanks()
	s.noteBlind(pc.CompetitionStateEvent_BlindUpdated)
	s.noteOut("stop", ids, pc.CompetitionPlayerStatus_Knockout)
	if c.Meta.Mode != pc.CompetitionMode_Cash {
		if len(c.State.Tables) == 0 || (len(c.State.Tables) == 1 && aliveCount(c.State.Tables[0]) < 2) {
			s.hit("C23", "stop-close:tables%d", len(c.State.Tables))
			s.close(pc.CompetitionStateStatus_End)
		}
	}
}

// ---- comparison

func jsonOf(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}
