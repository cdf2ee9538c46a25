package vh

import (
	"fmt"
	"math/rand"
)

// Case is one case of a workload that is not a simulated competition.
type Case struct {
	idx    int
	r      *rand.Rand
	trace  []string
	bad    []Mismatch
	hits   map[string]int
	steps  int
	events int
	cmds   int
	known  map[string]int
	base   string // property the case's ordinary failures belong to
}

func newCase(r *rand.Rand) *Case {
	return &Case{r: r, hits: map[string]int{}, known: map[string]int{}, base: vhProp}
}

func (c *Case) log(f string, a ...any) {
	c.trace = append(c.trace, fmt.Sprintf(f, a...))
	if len(c.trace) > 3000 {
		c.trace = append(c.trace[:50:50], c.trace[len(c.trace)-2000:]...)
	}
}
func (c *Case) hit(k string)                  { c.hits[c.base+"|"+k]++ }
func (c *Case) fail(f string, a ...any)       { c.failP(c.base, f, a...) }
func (c *Case) hitP(prop, f string, a ...any) { c.hits[prop+"|"+fmt.Sprintf(f, a...)]++ }
func (c *Case) failP(prop, f string, a ...any) {
	m := Mismatch{Props: []string{prop}, What: fmt.Sprintf(f, a...)}
	if len(c.bad) < 20 {
		c.bad = append(c.bad, m)
	}
	c.log("!! %s", m.What)
}
func (c *Case) ok(cond bool, f string, a ...any) bool {
	if !cond {
		c.fail(f, a...)
	}
	return cond
}

func (r *Result) addCase(idx int, c *Case, kind string) {
	r.Cases++
	r.Steps += c.steps
	r.Events += c.events
	r.Commands += c.cmds
	for k, n := range c.hits {
		r.hit(k, n)
	}
	r.signature(c.hits)
	for k, n := range c.known {
		r.Extra["known:"+k] += n
	}
	var mine []Mismatch
	for _, m := range c.bad {
		if m.Props[0] == vhProp {
			mine = append(mine, m)
		} else {
			r.Extra["deviations of other properties"]++
		}
	}
	if len(mine) > 0 {
		c.bad = mine
		r.NViol++
		if len(r.Viol) < 3 {
			r.Viol = append(r.Viol, Violation{Case: idx, Kind: kind, Bad: c.bad, Trace: c.trace})
		}
	}
	if len(r.Samples) < 1 && len(c.bad) == 0 && len(c.trace) > 5 {
		t := c.trace
		if len(t) > 25 {
			t = t[:25]
		}
		r.Samples = append(r.Samples, append([]string{fmt.Sprintf("case %d (%s)", idx, kind)}, t...))
	}
}

// caseWorkload runs one function per case.
func caseWorkload(fn func(c *Case) string) func(*Result) {
	return func(res *Result) {
		for _, idx := range cases() {
			mark(idx)
			c := newCase(caseRand(vhProp, idx))
			c.idx = idx
			kind := fn(c)
			res.addCase(idx, c, kind)
			if res.NViol >= 40 {
				break
			}
		}
	}
}
