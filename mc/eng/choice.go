package eng

import (
	"fmt"
	"strings"
	"sync"
)

// Chooser answers the nondeterministic questions of one execution: it follows a
// prefix of recorded choices and answers 0 (the default) afterwards.
type Chooser struct {
	prefix   []Choice
	Points   []Choice
	diverged error
}

// Choice is one answered question: alternative Alt of N, free of cost if Free.
type Choice struct {
	N, Alt int
}

// Choose picks among n alternatives; 0 is the default environment answer.
func (x *Chooser) Choose(n int) int {
	i := len(x.Points)
	alt := 0
	if i < len(x.prefix) {
		if x.prefix[i].N != n {
			if x.diverged == nil {
				x.diverged = fmt.Errorf("divergence while replaying a prefix: point %d has %d alternatives, had %d", i, n, x.prefix[i].N)
			}
		} else {
			alt = x.prefix[i].Alt
		}
	}
	x.Points = append(x.Points, Choice{n, alt})
	return alt
}

// Plan is the recorded prefix, for executions that cannot ask as they go.
func (x *Chooser) Plan() []Choice { return x.prefix }

// Record says afterwards that n questions with k alternatives each were met.
func (x *Chooser) Record(n, k int) {
	x.Points = make([]Choice, n)
	for i := range x.Points {
		x.Points[i].N = k
		if i < len(x.prefix) {
			x.Points[i].Alt = x.prefix[i].Alt
		}
	}
}

func choiceString(p []Choice) string {
	last := -1
	for i, c := range p {
		if c.Alt != 0 {
			last = i
		}
	}
	var sb strings.Builder
	n := 0
	for i := 0; i <= last; i++ {
		if p[i].Alt != 0 {
			if n > 0 {
				sb.WriteByte(',')
			}
			fmt.Fprintf(&sb, "%d:%d", i, p[i].Alt)
			n++
		}
	}
	if n == 0 {
		return "default"
	}
	return sb.String()
}

// SetPart makes Explore take the i-th of n parts of the executions, which are split
// by the place of the first deviation.
func (c *Ctx) SetPart(i, n int) { c.part, c.parts = i, n }

// Explore runs `run` for every choice sequence with at most `bound` deviations
// from the default answers (bound<0: no bound). The case id is name+"/"+choices.
// When replaying, ids are matched on the fly.
func (c *Ctx) Explore(name string, bound int, run func(x *Chooser) error) {
	type item struct {
		prefix []Choice
		dev    int
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	work := []item{{}}
	busy := 0
	var wg sync.WaitGroup
	for k := 0; k < c.workers(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(work) == 0 && busy > 0 {
					cond.Wait()
				}
				if len(work) == 0 || (c.filter == "" && c.Stopped()) {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				it := work[len(work)-1]
				work = work[:len(work)-1]
				busy++
				mu.Unlock()

				var pts []Choice
				id := func() string { return name + "/" + choiceString(it.prefix) }
				exec := func() error {
					x := &Chooser{prefix: it.prefix}
					err := run(x)
					if x.diverged != nil {
						c.Broken(fmt.Errorf("%s: %v", id(), x.diverged))
						return nil
					}
					pts = x.Points
					return err
				}
				if c.filter != "" {
					// replay: only descend along the filtered id
					if id() == c.filter {
						c.Case(id, exec)
					} else if strings.HasPrefix(c.filter, name+"/") {
						seedCase(c.Seed, id)
						protect(exec)
					}
				} else if c.parts > 1 && it.dev == 0 && c.part != 0 {
					// counted in part 0
					seedCase(c.Seed, id)
					protect(exec)
				} else {
					c.Case(id, exec)
				}
				c.Trans(len(pts))
				var kids []item
				if bound < 0 || it.dev < bound {
					for i := len(it.prefix); i < len(pts); i++ {
						if it.dev == 0 && c.parts > 1 && i%c.parts != c.part {
							continue
						}
						for a := 1; a < pts[i].N; a++ {
							np := append(append([]Choice{}, pts[:i]...), Choice{pts[i].N, a})
							kid := item{np, it.dev + 1}
							if c.filter != "" {
								s := name + "/" + choiceString(np)
								if !(c.filter == s || strings.HasPrefix(c.filter, s+",")) {
									continue
								}
							}
							kids = append(kids, kid)
						}
					}
				}
				mu.Lock()
				work = append(work, kids...)
				busy--
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
}

// Compositions calls f with every composition of n into positive parts of size at most max (max<=0: any).
func Compositions(n, max int, f func(parts []int)) {
	var rec func(left int, acc []int)
	rec = func(left int, acc []int) {
		if left == 0 {
			f(append([]int{}, acc...))
			return
		}
		for k := 1; k <= left && (max <= 0 || k <= max); k++ {
			rec(left-k, append(acc, k))
		}
	}
	rec(n, nil)
}

// Words calls f with every sequence over 0..k-1 of length lo..hi.
func Words(k, lo, hi int, f func(w []int)) {
	for n := lo; n <= hi; n++ {
		w := make([]int, n)
		for {
			f(append([]int{}, w...))
			i := n - 1
			for ; i >= 0; i-- {
				w[i]++
				if w[i] < k {
					break
				}
				w[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
}

// CountWords is k^n.
func CountWords(k, n int) int {
	r := 1
	for i := 0; i < n; i++ {
		r *= k
	}
	return r
}

// Word decodes index i as a word of length n over k letters.
func Word(k, n, i int) []int {
	w := make([]int, n)
	for j := n - 1; j >= 0; j-- {
		w[j] = i % k
		i /= k
	}
	return w
}
