package vh

import (
	"errors"
	"fmt"
	"testing/synctest"
	"time"

	pokerblind "github.com/weedbox/pokercompetition/blind"
	"github.com/weedbox/pokerface"
)

func init() { mixed["C21"] = blindCase }

type blindEv struct {
	at  time.Time
	idx int
}

// blindCase drives the blind clock by itself.
func blindCase(c *Case) string {
	r := c.r
	time.Sleep(time.Duration(r.Int63n(int64(3 * time.Second))))
	n := 1 + r.Intn(8)
	o := &pokerblind.BlindOptions{ID: "b", FinalBuyInLevelIndex: r.Intn(n+2) - 1}
	lv := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		l := pokerblind.BlindLevel{Level: lv, Ante: int64(r.Intn(5)), Blind: pokerface.BlindSetting{SB: int64(10 * lv), BB: int64(20 * lv)}, Duration: pickI(r, 1, 1, 2, 3, 7, 30, 600)}
		if i > 0 && r.Intn(4) == 0 {
			l.Level = -1
		} else {
			lv += 1 + r.Intn(2)
		}
		if r.Intn(10) == 0 {
			l.Duration = -1
		}
		o.Levels = append(o.Levels, l)
	}
	init := r.Intn(n)
	for o.Levels[init].Level < 0 {
		init = r.Intn(n)
	}
	o.InitialLevel = o.Levels[init].Level
	b := pokerblind.NewBlind()
	if _, err := b.Start(); !errors.Is(err, pokerblind.ErrBlindNoOptions) {
		c.fail("starting without a structure: %v", err)
	}
	if err := b.UpdateInitialLevel(1); !errors.Is(err, pokerblind.ErrBlindNoState) {
		c.fail("an initial level without a structure: %v", err)
	}
	var got []blindEv
	ended := time.Time{}
	b.OnBlindStateUpdated(func(bs *pokerblind.BlindState) {
		got = append(got, blindEv{time.Now(), bs.Status.CurrentLevelIndex})
		c.log("%v level index %d", time.Now().UTC().Format("15:04:05.000"), bs.Status.CurrentLevelIndex)
	})
	b.OnErrorUpdated(func(*pokerblind.BlindState, error) {})
	bs := b.ApplyOptions(o)
	c.ok(bs.StartedAt == -1 && !b.IsStarted() && bs.Status.CurrentLevelIndex == -1, "applied options start the blinds")
	c.ok(bs.Meta.InitialLevel == o.InitialLevel && bs.Status.FinalBuyInLevelIndex == o.FinalBuyInLevelIndex, "the state does not show its settings")
	if r.Intn(3) == 0 { // unknown initial level, then a known one
		u := 100 + r.Intn(3)
		if r.Intn(2) == 0 {
			u = -7
		}
		b.UpdateInitialLevel(u)
		_, err := b.Start()
		c.ok(err != nil, "an unknown initial level is not reported")
		c.ok(!b.IsStarted() && b.GetState().StartedAt == -1, "an unknown initial level starts the blinds")
		time.Sleep(time.Duration(r.Intn(5)) * time.Second)
		b.UpdateInitialLevel(o.Levels[init].Level)
		c.hit("unknown initial level")
	} else if r.Intn(3) == 0 {
		for {
			init = r.Intn(n)
			if o.Levels[init].Level > 0 {
				break
			}
		}
		b.UpdateInitialLevel(o.Levels[init].Level)
		c.hit("changed initial level")
	}
	at := time.Now()
	s, err := b.Start()
	if err != nil {
		c.fail("a known initial level is refused: %v", err)
		return "blind"
	}
	c.log("%v starts at index %d of %+v", at.UTC().Format("15:04:05.000"), init, o.Levels)
	c.ok(b.IsStarted() && s.StartedAt == at.Unix() && s.Status.CurrentLevelIndex == init, "started at %d with index %d, expected %d and %d", s.StartedAt, s.Status.CurrentLevelIndex, at.Unix(), init)
	var want []blindEv
	end := at.Unix()
	unlimited := false
	for i := init; i < n && !unlimited; i++ {
		if o.Levels[i].Duration < 0 {
			c.ok(s.Status.LevelEndAts[i] == -1, "an unlimited level ends at %d", s.Status.LevelEndAts[i])
			unlimited = true
			c.hit("unlimited level")
			break
		}
		end += int64(o.Levels[i].Duration)
		c.ok(s.Status.LevelEndAts[i] == end, "level %d ends at %d, expected %d", i, s.Status.LevelEndAts[i], end)
		if i+1 < n {
			want = append(want, blindEv{time.Unix(end, 0), i + 1})
		} else {
			c.hit("last level over")
		}
	}
	for i := 0; i < init; i++ {
		c.ok(s.Status.LevelEndAts[i] == -1, "the level %d before the initial one has an end", i)
	}
	endBlind := r.Intn(3) == 0
	horizon := time.Unix(end, 0).Add(time.Hour)
	var stopAt time.Time
	if endBlind && end > at.Unix() {
		stopAt = at.Add(time.Duration(r.Int63n(int64(time.Unix(end, 0).Sub(at)) + 1)))
		for _, w := range want {
			if w.at.Equal(stopAt) {
				stopAt = stopAt.Add(time.Millisecond)
			}
		}
		if r.Intn(4) == 0 {
			stopAt = at
		}
	}
	// look at it at random moments
	var looks []time.Time
	for k := r.Intn(6); k > 0; k-- {
		looks = append(looks, at.Add(time.Duration(r.Int63n(int64(time.Unix(end, 0).Sub(at))+int64(2*time.Second)))))
	}
	for len(looks) > 0 || !stopAt.IsZero() {
		k := -1
		for i := range looks {
			if k < 0 || looks[i].Before(looks[k]) {
				k = i
			}
		}
		if !stopAt.IsZero() && (k < 0 || !looks[k].Before(stopAt)) {
			time.Sleep(time.Until(stopAt))
			b.End()
			ended = stopAt
			stopAt = time.Time{}
			c.log("%v ended", time.Now().UTC().Format("15:04:05.000"))
			c.hit("ended early")
			continue
		}
		time.Sleep(time.Until(looks[k]))
		synctest.Wait()
		now := time.Now()
		looks = append(looks[:k], looks[k+1:]...)
		idx := init
		for _, w := range want {
			if !w.at.After(now) && (ended.IsZero() || w.at.Before(ended)) {
				idx = w.idx
			}
		}
		g := b.GetState()
		c.ok(g.Status.CurrentLevelIndex == idx, "at %v the level index is %d, expected %d", now, g.Status.CurrentLevelIndex, idx)
		c.ok(g.IsBreaking() == (o.Levels[idx].Level == -1) && g.CurrentLevel() == o.Levels[idx], "the current level is reported as %+v", g.CurrentLevel())
		c.ok(g.IsStoppedBuyIn() == (o.FinalBuyInLevelIndex == -1 || idx >= o.FinalBuyInLevelIndex), "stop of buy-in reported wrongly at index %d", idx)
		if r.Intn(3) == 0 {
			if _, err := b.Start(); !errors.Is(err, pokerblind.ErrBlindAlreadyStarted) {
				c.fail("a second start: %v", err)
			}
			c.hit("second start")
		}
	}
	time.Sleep(time.Until(horizon))
	synctest.Wait()
	k := 0
	for _, w := range want {
		if !ended.IsZero() && !w.at.Before(ended) {
			break
		}
		c.steps++
		c.events++
		if k >= len(got) || got[k].idx != w.idx || !got[k].at.Equal(w.at) {
			c.fail("level changes %s, expected %s", showEvs(got), showEvs(want))
			return "blind"
		}
		c.hit("level change")
		k++
	}
	c.ok(len(got) == k, "level changes %s, expected the first %d of %s", showEvs(got), k, showEvs(want))
	return "blind"
}

func showEvs(es []blindEv) string {
	s := ""
	for _, e := range es {
		s += fmt.Sprintf("%d@%s ", e.idx, e.at.UTC().Format("15:04:05.000"))
	}
	return "[" + s + "]"
}
