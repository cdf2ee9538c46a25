package vh

import (
	"fmt"
	"math/rand"
	"time"

	pc "github.com/weedbox/pokercompetition"
)

type pcMode = pc.CompetitionMode

// realTime workloads run outside the time bubble.
var realTime = map[string]bool{}

// workloads that are not (only) simulated competitions.
var workloads = map[string]func(*Result){}

func generalProfile() *Profile {
	return &Profile{Modes: []pcMode{ct, mtt, cash}, Steps: 220, W: map[string]int{}, Lag: 0.3}
}

// reshape turns some levels into breaks.
func moreBreaks(r *rand.Rand, s *pc.CompetitionSetting) {
	ls := s.Meta.Blind.Levels
	for i := 1; i < len(ls); i++ {
		if ls[i].Level != s.Meta.Blind.InitialLevel && ls[i].Duration > 0 && r.Intn(3) == 0 {
			ls[i] = pc.BlindLevel{Level: -1, Duration: ls[i].Duration, AllowAddon: ls[i].AllowAddon}
		}
	}
}

func shortLevels(r *rand.Rand, s *pc.CompetitionSetting) {
	for i := range s.Meta.Blind.Levels {
		if s.Meta.Blind.Levels[i].Duration > 0 {
			s.Meta.Blind.Levels[i].Duration = pickI(r, 3, 4, 6, 9, 13)
		}
	}
}

func longLevels(r *rand.Rand, s *pc.CompetitionSetting) {
	ls := s.Meta.Blind.Levels
	for i := range ls {
		if ls[i].Duration > 0 && ls[i].Level > 0 {
			ls[i].Duration = pickI(r, 30, 60, 200)
		}
	}
}

// profileOf: half of the cases are general, half lean towards the property.
func profileOf(prop string, r *rand.Rand) *Profile {
	p := generalProfile()
	if r.Intn(2) == 0 {
		return p
	}
	now := time.Now().Unix()
	switch prop {
	case "C01":
		p.W = map[string]int{"close": 4}
		p.Late = 40
	case "C02":
		p.Modes = []pcMode{ct, cash}
		p.Steps = 90
		p.Lag = 0.15
		p.Cfg = func(r *rand.Rand, s *pc.CompetitionSetting) {
			if s.Meta.Mode == ct && r.Intn(2) == 0 {
				s.StartAt = now + int64(pickI(r, 2, 5, 10, 20, 30))
			}
		}
	case "C03":
		p.Modes = []pcMode{mtt, mtt, mtt, ct, cash}
		p.Steps = 90
		p.W = map[string]int{"start": 6, "next": 10}
		p.Cfg = func(r *rand.Rand, s *pc.CompetitionSetting) {
			s.DisableAt = now + int64(pickI(r, 5, 10, 20, 30))
			s.Meta.MinPlayerCount = 2 + r.Intn(6)
			if s.Meta.MinPlayerCount > s.Meta.TableMaxSeatCount && s.Meta.Mode != mtt {
				s.Meta.MinPlayerCount = s.Meta.TableMaxSeatCount
			}
			if s.Meta.Mode == mtt && r.Intn(2) == 0 {
				s.StartAt = now + int64(pickI(r, 2, 5, 9, 15, 25))
			}
		}
	case "C05", "C06":
		p.W = map[string]int{"buyin": 25, "rebuy": 25, "rebuyBad": 12, "buyinZero": 5}
		p.Bust = 0.6
		p.Cfg = func(r *rand.Rand, s *pc.CompetitionSetting) {
			if r.Intn(2) == 0 {
				longLevels(r, s)
			}
			if s.Meta.Mode != cash {
				s.Meta.ReBuySetting.MaxTime = r.Intn(4)
			}
		}
	case "C07":
		p.W = map[string]int{"addon": 40}
		p.Cfg = func(r *rand.Rand, s *pc.CompetitionSetting) {
			moreBreaks(r, s)
			s.Meta.AddonSetting.MaxTime = r.Intn(4)
		}
	case "C08":
		p.Modes = []pcMode{ct, mtt}
		p.W = map[string]int{"refund": 20, "buyin": 20}
		p.Steps = 120
		p.Cfg = func(r *rand.Rand, s *pc.CompetitionSetting) {
			s.DisableAt = now + 300
			if r.Intn(2) == 0 {
				s.Meta.MinPlayerCount = s.Meta.TableMaxSeatCount
			}
		}
	case "C09", "C10":
		p.W = map[string]int{"table": 120, "dup": 8}
	case "C11":
		p.Modes = []pcMode{ct, cash}
		p.Bust = 0.6
		p.W = map[string]int{"rebuy": 4, "quit": 2, "cashout": 2}
		p.Cfg = longOrGeneral
	case "C12":
		p.Modes = []pcMode{ct, ct, ct, mtt, cash}
		p.Bust = 0.6
		p.W = map[string]int{"quit": 14, "rebuy": 4}
		p.Cfg = longOrGeneral
	case "C13":
		p.Bust = 0.6
		p.W = map[string]int{"rebuy": 2}
		p.Cfg = func(r *rand.Rand, s *pc.CompetitionSetting) {
			if s.Meta.Mode != cash {
				s.Meta.Blind.FinalBuyInLevelIndex = r.Intn(3)
				s.Meta.ReBuySetting = pc.ReBuySetting{MaxTime: 1 + r.Intn(3), WaitingTime: pickI(r, 5, 20, 60)}
			}
		}
	case "C14", "C15", "C16":
		p.Modes = []pcMode{ct, mtt, mtt}
		p.Bust = 0.6
		p.W = map[string]int{"table": 120}
		p.Late = 20
		p.Cfg = func(r *rand.Rand, s *pc.CompetitionSetting) {
			s.Meta.MaxDuration = 300
			if r.Intn(2) == 0 {
				shortLevels(r, s)
				s.Meta.Blind.FinalBuyInLevelIndex = r.Intn(2)
			}
		}
	case "C17":
		p.W = map[string]int{"rebuy": 20, "addon": 10, "refund": 4, "cashout": 8, "dup": 5}
		p.Bust = 0.4
	case "C18":
		p.W = map[string]int{"foreign": 6, "dup": 6, "lateReport": 6}
		p.Late = 20
	case "C19":
		p.W = map[string]int{"next": 20, "time": 20}
		p.Cfg = func(r *rand.Rand, s *pc.CompetitionSetting) {
			moreBreaks(r, s)
			s.Meta.MaxDuration = 300
		}
	case "C20", "C21":
		p.W = map[string]int{"next": 20, "time": 20, "updInit": 4}
		p.Cfg = func(r *rand.Rand, s *pc.CompetitionSetting) {
			shortLevels(r, s)
			moreBreaks(r, s)
			s.Meta.MaxDuration = 300
		}
	case "C22":
		p.Bust = 0.4
		p.W = map[string]int{"table": 120}
		p.Cfg = func(r *rand.Rand, s *pc.CompetitionSetting) {
			moreBreaks(r, s)
			s.Meta.MaxDuration = 300
			if s.Meta.Mode != mtt && s.Meta.TableMaxSeatCount > 3 {
				s.Meta.TableMinPlayerCount = 2 + r.Intn(2)
			}
		}
	case "C23":
		p.W = map[string]int{"table": 100, "autoend": 2, "autoendIdle": 2}
		p.Bust = 0.5
		p.Cfg = func(r *rand.Rand, s *pc.CompetitionSetting) {
			s.Meta.MaxDuration = pickI(r, 5, 10, 15, 20, 40, 200)
			if s.Meta.Mode == ct && r.Intn(2) == 0 {
				s.Meta.Blind.FinalBuyInLevelIndex = r.Intn(2)
			}
		}
	case "C24", "C25":
		p.Modes = []pcMode{mtt}
		p.W = map[string]int{"table": 130, "buyin": 14}
		p.Steps = 320
		p.Bust = 0.4
		p.Cfg = func(r *rand.Rand, s *pc.CompetitionSetting) {
			s.Meta.AdvanceSetting = pc.AdvanceSetting{}
			if r.Intn(2) == 0 {
				s.Meta.Blind.FinalBuyInLevelIndex = 0
				if len(s.Meta.Blind.Levels) > 1 && s.Meta.Blind.Levels[1].Level > 0 && s.Meta.Blind.Levels[0].Duration > 0 {
					s.Meta.Blind.Levels[1].Duration = 300
				}
			}
		}
	case "C26":
		p.Modes = []pcMode{mtt}
		p.W = map[string]int{"table": 130, "buyin": 14}
		p.Steps = 320
		p.Bust = 0.4
		p.Cfg = func(r *rand.Rand, s *pc.CompetitionSetting) {
			s.Meta.AdvanceSetting = pc.AdvanceSetting{Rule: pc.CompetitionAdvanceRule_PlayerCount}
			if r.Intn(2) == 0 {
				s.Meta.AdvanceSetting = pc.AdvanceSetting{Rule: pc.CompetitionAdvanceRule_BlindLevel, BlindLevel: 1 + r.Intn(len(s.Meta.Blind.Levels))}
			}
			s.Meta.Blind.FinalBuyInLevelIndex = pickI(r, -1, 0, 0, 1)
		}
	case "C27", "C36", "C37":
		p.W = map[string]int{"rebuy": 10, "addon": 6, "refund": 4, "cashout": 6, "quit": 5}
		p.Bust = 0.4
	case "C28":
		p.Modes = []pcMode{cash}
		p.Bust = 0.5
		p.W = map[string]int{"cashout": 16, "rebuy": 4}
		p.Cfg = func(r *rand.Rand, s *pc.CompetitionSetting) { s.Meta.MaxDuration = pickI(r, 60, 300) }
	}
	return p
}

func longOrGeneral(r *rand.Rand, s *pc.CompetitionSetting) {
	if r.Intn(2) == 0 {
		longLevels(r, s)
	}
	s.Meta.MaxDuration = 300
	if s.Meta.Mode != cash {
		s.Meta.ReBuySetting.MaxTime = 1 + r.Intn(3)
	}
}

// scaleCase makes some competitions large, long, rich or oddly named.
func scaleCase(r *rand.Rand, p *Profile, s *pc.CompetitionSetting) {
	switch r.Intn(40) {
	case 0, 1: // a big field
		if s.Meta.Mode == mtt {
			p.Pool, p.Need = 60+r.Intn(41), 30+r.Intn(60)
			p.Steps += p.Need + 150
			s.DisableAt += 600
			if s.StartAt > 0 {
				s.StartAt += 60
			}
			s.Meta.TableMaxSeatCount = 6 + r.Intn(4)
			s.Meta.RegulatorMinInitialPlayerCount = 2 + r.Intn((2*s.Meta.TableMaxSeatCount+1)/3-1)
		}
	case 2: // a long one
		p.Steps *= 5
		p.Bust = 0.05
		s.Meta.MaxDuration = 3000
		for i := range s.Meta.Blind.Levels {
			if s.Meta.Blind.Levels[i].Duration > 0 {
				s.Meta.Blind.Levels[i].Duration = pickI(r, 60, 90, 300)
			}
		}
	}
	if p.Need == 0 && r.Intn(2) == 0 { // a well attended one
		p.Need = 1 + r.Intn(s.Meta.TableMaxSeatCount)
		if s.Meta.Mode == mtt {
			p.Need = 4 + r.Intn(23)
		}
	}
	switch r.Intn(12) {
	case 0:
		p.Scale = pickI64(r, 1_000, 10_000_000, 1_000_000_000, 10_000_000_000_000)
	case 1:
		id := s.CompetitionID
		p.ID = func(i int) string { return fmt.Sprintf("%s|玩家 %d.%d", id, i/10, i%10) }
	}
}
