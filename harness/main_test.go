package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

// Violation is one case in which the property under check was broken.
type Violation struct {
	Case  int        `json:"case"`
	Kind  string     `json:"kind"`
	Bad   []Mismatch `json:"bad"`
	Trace []string   `json:"trace"`
}

// Result is what one worker process observed.
type Result struct {
	Cases    int            `json:"cases"`
	Steps    int            `json:"steps"`
	Events   int            `json:"events"`
	Commands int            `json:"commands"`
	Hits     map[string]int `json:"hits"`
	Other    map[string]int `json:"other"` // deviations attributed to other properties
	Stopped  int            `json:"stopped"`
	Samples  [][]string     `json:"samples"`
	Viol     []Violation    `json:"viol"`
	NViol    int            `json:"nviol"`
	Done     bool           `json:"done"`
	Extra    map[string]int `json:"extra,omitempty"`
	Sigs     []string       `json:"sigs"` // distinct non-trivial cases
	sigs     map[string]bool
}

func (r *Result) hit(k string, n int) {
	if r.Hits == nil {
		r.Hits = map[string]int{}
	}
	r.Hits[k] += n
}

var (
	vhProp = os.Getenv("VH_PROP")
	vhSeed = envI("VH_SEED", 1)
	vhFrom = envI("VH_FROM", 0)
	vhN    = envI("VH_N", 50)
	vhStep = envI("VH_STEP", 1)
	vhOut  = os.Getenv("VH_OUT")
	vhTier = os.Getenv("VH_TIER")
	vhAll  = os.Getenv("VH_ALL") != "" // debugging: any deviation counts
)

func envI(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func caseRand(prop string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%d|%d", prop, vhSeed, idx)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func relevant(bad []Mismatch, prop string) []Mismatch {
	var out []Mismatch
	for _, m := range bad {
		if vhAll || inStr(m.Props, prop) {
			out = append(out, m)
		}
	}
	return out
}

// signature notes which situations of the property a case met.
func (r *Result) signature(hits map[string]int) {
	var ks []string
	for k, n := range hits {
		if strings.HasPrefix(k, vhProp+"|") {
			ks = append(ks, fmt.Sprintf("%s=%d", k, n))
		}
	}
	if len(ks) == 0 {
		return
	}
	sort.Strings(ks)
	h := fnv.New64a()
	h.Write([]byte(strings.Join(ks, ";")))
	sig := strconv.FormatUint(h.Sum64(), 36)
	if r.sigs == nil {
		r.sigs = map[string]bool{}
	}
	if !r.sigs[sig] {
		r.sigs[sig] = true
		r.Sigs = append(r.Sigs, sig)
	}
}

func (r *Result) add(idx int, w *World, kind string) {
	r.Cases++
	r.Steps += w.steps
	r.Events += w.nEvents
	r.Commands += w.nCmds
	for k, n := range w.hits {
		r.hit(k, n)
	}
	if w.badSteps > 0 {
		r.Stopped++
	}
	r.signature(w.hits)
	if w.known != "" {
		r.Extra["known:"+w.known]++
	}
	rel := relevant(w.bad, vhProp)
	if len(rel) > 0 {
		r.NViol++
		if len(r.Viol) < 3 {
			r.Viol = append(r.Viol, Violation{Case: idx, Kind: kind, Bad: rel, Trace: w.trace})
		}
	}
	for _, m := range w.bad {
		if !inStr(m.Props, vhProp) {
			if r.Other == nil {
				r.Other = map[string]int{}
			}
			for _, p := range m.Props {
				r.Other[p]++
			}
		}
	}
	if len(r.Samples) < 1 && len(rel) == 0 && w.steps > 20 {
		t := w.trace
		if len(t) > 25 {
			t = t[:25]
		}
		r.Samples = append(r.Samples, append([]string{fmt.Sprintf("case %d (%s)", idx, kind)}, t...))
	}
}

func (r *Result) write() {
	if vhOut == "" {
		return
	}
	b, _ := json.Marshal(r)
	os.WriteFile(vhOut, b, 0o644)
}

func mark(idx int) {
	progress.Add(1)
	if vhOut != "" {
		os.WriteFile(vhOut+".case", []byte(strconv.Itoa(idx)), 0o644)
	}
}

// watchdog runs in real time, outside the bubble.
func watchdog(limit time.Duration) {
	last, since := progress.Load(), time.Now()
	for {
		time.Sleep(250 * time.Millisecond)
		if p := progress.Load(); p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) < limit {
			continue
		}
		buf := make([]byte, 8<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Fprintf(os.Stderr, "VH-HANG\n%s\n", buf)
		os.Exit(7)
	}
}

func TestWorker(t *testing.T) {
	if vhProp == "" {
		t.Skip("driven by ../check")
	}
	if n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil && os.Getenv("VH_STDOUT") == "" {
		os.Stdout = n
	}
	res := &Result{Hits: map[string]int{}, Extra: map[string]int{}}
	go watchdog(time.Duration(envI("VH_HANG", 25)) * time.Second)
	fn := workloads[vhProp]
	if fn == nil {
		fn = simWorkload
	}
	if realTime[vhProp] {
		fn(res)
		res.Done = true
		res.write()
		os.Exit(0)
	}
	synctest.Test(t, func(t *testing.T) {
		fn(res)
		res.Done = true
		res.write()
		os.Exit(0)
	})
}

func cases() []int {
	var out []int
	for i := 0; i < vhN; i++ {
		out = append(out, vhFrom+i*vhStep)
	}
	return out
}

// mixed workloads: every fourth case (per worker) is one of these instead of a simulated competition.
var mixed = map[string]func(*Case) string{}

// simWorkload is the general one: simulated competitions under the profile of the property.
func simWorkload(res *Result) {
	for _, idx := range cases() {
		mark(idx)
		r := caseRand(vhProp, idx)
		if fn := mixed[vhProp]; fn != nil && (idx/8)%4 == 3 {
			c := newCase(r)
			kind := fn(c)
			res.addCase(idx, c, kind)
		} else if vhProp == "C24" && idx == 0 {
			overfillCase(res, idx, r)
		} else if k := faultKinds[vhProp]; k != nil && (idx/8)%9 == 4 {
			kinds := map[string]bool{}
			for _, x := range k {
				kinds[x] = true
			}
			faultCase(res, idx, r, vhProp, kinds)
		} else {
			simCase(res, idx, r)
		}
		if res.NViol >= 40 {
			break
		}
	}
}

func simCase(res *Result, idx int, r *rand.Rand) {
	prof := profileOf(vhProp, r)
	mode := prof.Modes[r.Intn(len(prof.Modes))]
	if m := os.Getenv("VH_MODE"); m != "" {
		mode = map[string]pcMode{"ct": ct, "mtt": mtt, "cash": cash}[m]
	}
	set := genSetting(r, mode, fmt.Sprintf("c%d", idx))
	if prof.Cfg != nil {
		prof.Cfg(r, &set)
	}
	scaleCase(caseRand("scale-"+vhProp, idx), prof, &set)
	w := newWorld(r, prof, set)
	w.run(prof.Steps)
	res.add(idx, w, string(mode))
}
