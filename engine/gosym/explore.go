package gosym

import (
	"fmt"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	prefix []int
	model  Model
}

// Limits bound an exploration as a whole.
type Limits struct {
	Workers  int
	Time     time.Duration
	MaxPaths int
	MaxViol  int
	Samples  int
	First    bool // stop soon after the first violation
}

// Summary is the outcome of an exploration.
type Summary struct {
	Entry     string
	Paths     int
	Kinds     map[string]int
	Steps     int64
	Asserts   int64
	Decisions int64
	Reach     map[string]int
	Notes     map[string]int
	Problems  map[string]int // unsupported, limit, engine and solver ends
	Viol      []*Violation
	NViol     int
	Complete  bool // every path within the bounds was explored
	Left      int
	Wall      time.Duration
	Solver    SolverStats
	Funcs     map[string]int64 // functions executed, with instruction counts
	MaxPC     int
	Samples   []*Sample
	InitErrs  []string
	Terms     int64
}

// Explorer keeps the machines between explorations.
type Explorer struct {
	P  *Program
	ms []*Machine
}

func NewExplorer(p *Program, n int) *Explorer {
	e := &Explorer{P: p, ms: make([]*Machine, n)}
	var wg sync.WaitGroup
	for i := range e.ms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := NewMachine(p, Options{MaxSteps: 1 << 60, MaxDepth: 4000})
			m.Init()
			e.ms[i] = m
		}()
	}
	wg.Wait()
	return e
}

func (e *Explorer) Close() {
	for _, m := range e.ms {
		m.solver.Close()
	}
}

func (e *Explorer) InitErrs() []string { return e.ms[0].initErrs }

// Run explores entry.
func (e *Explorer) Run(entry *ssa.Function, opt Options, lim Limits) *Summary {
	sum := &Summary{Entry: entry.String(), Kinds: map[string]int{}, Reach: map[string]int{}, Notes: map[string]int{},
		Problems: map[string]int{}, Funcs: map[string]int64{}}
	t0 := time.Now()
	deadline := t0.Add(lim.Time)
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := []workItem{{}}
	busy := 0
	stopped := false
	firstViol := 0
	seen := map[string]int{}
	kept := map[string]bool{}
	nsamp := 0
	var wg sync.WaitGroup
	for _, m := range e.ms {
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			m.Opt = opt
			m.solver.bin, m.solver.timeout = opt.SolverBin, opt.SolverMs
			m.solver.Stats = SolverStats{}
			m.nAsserts, m.nDecide = 0, 0
			m.newWork = func(prefix []int, model Model) {
				mu.Lock()
				queue = append(queue, workItem{prefix, model})
				mu.Unlock()
				cond.Signal()
			}
			m.onViol = func(v *Violation) {
				mu.Lock()
				sum.NViol++
				k := v.Kind + v.Known + v.Msg
				// the first, and some later ones: the real code may differ in what is not specified
				n := seen[k]
				seen[k]++
				if n == 0 && len(kept) < lim.MaxViol {
					kept[k] = true
					sum.Viol = append(sum.Viol, v)
				} else if kept[k] && n < 4096 && n&(n-1) == 0 {
					sum.Viol = append(sum.Viol, v)
				}
				mu.Unlock()
			}
			m.Opt.Sample = func() bool {
				mu.Lock()
				defer mu.Unlock()
				if sum.Paths < lim.Samples/2 || sum.Paths%37 == 0 {
					if nsamp < lim.Samples {
						nsamp++
						return true
					}
				}
				return false
			}
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 && !stopped {
					cond.Wait()
				}
				if len(queue) == 0 || stopped {
					mu.Unlock()
					cond.Broadcast()
					break
				}
				w := queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				busy++
				mu.Unlock()
				res := m.RunPath(entry, w.prefix, w.model)
				if len(m.tc.tab) > 2000000 {
					m.resetTerms()
				}
				mu.Lock()
				busy--
				sum.Paths++
				sum.Kinds[res.Kind]++
				sum.Steps += res.Steps
				sum.MaxPC = max(sum.MaxPC, res.PC)
				for _, r := range res.Reach {
					sum.Reach[r]++
				}
				for _, n := range res.Notes {
					sum.Notes[n]++
				}
				switch res.Kind {
				case "unsupported", "limit", "engine", "solver":
					sum.Problems[res.Kind+": "+res.Msg]++
				}
				if res.Sample != nil {
					sum.Samples = append(sum.Samples, res.Sample)
				}
				if lim.First && firstViol == 0 {
					for _, v := range sum.Viol {
						if v.Known == "" {
							firstViol = sum.Paths
						}
					}
				}
				if firstViol > 0 && sum.Paths > firstViol+200 {
					stopped = true
				}
				if time.Now().After(deadline) || lim.MaxPaths > 0 && sum.Paths >= lim.MaxPaths {
					stopped = true
				}
				mu.Unlock()
				cond.Broadcast()
			}
			mu.Lock()
			s := m.solver.Stats
			sum.Solver.add(s)
			sum.Asserts += m.nAsserts
			sum.Decisions += m.nDecide
			for _, f := range m.funcs {
				if f.calls > 0 {
					sum.Funcs[f.name] += f.calls
					f.calls = 0
				}
			}
			mu.Unlock()
		}(m)
	}
	wg.Wait()
	sum.Left = len(queue)
	sum.Wall = time.Since(t0)
	sum.Complete = len(queue) == 0 && !stopped && len(sum.Problems) == 0 && len(sum.Notes) == 0
	sort.SliceStable(sum.Viol, func(i, j int) bool { return sum.Viol[i].Msg < sum.Viol[j].Msg })
	return sum
}

func (s *SolverStats) add(o SolverStats) {
	s.Queries += o.Queries
	s.SatN += o.SatN
	s.UnsatN += o.UnsatN
	s.UnknownN += o.UnknownN
	s.Restarts += o.Restarts
	s.AssertQueries += o.AssertQueries
	s.AssertUnsat += o.AssertUnsat
	s.Cached += o.Cached
	s.Time += o.Time
}

func (s *Summary) String() string {
	return fmt.Sprintf("%s: paths=%d %v steps=%d asserts=%d decisions=%d queries=%d (sat %d unsat %d unknown %d) solver=%.1fs wall=%.1fs complete=%v left=%d viol=%d reach=%v problems=%v notes=%v",
		s.Entry, s.Paths, s.Kinds, s.Steps, s.Asserts, s.Decisions, s.Solver.Queries, s.Solver.SatN, s.Solver.UnsatN, s.Solver.UnknownN,
		s.Solver.Time.Seconds(), s.Wall.Seconds(), s.Complete, s.Left, s.NViol, s.Reach, s.Problems, s.Notes)
}
