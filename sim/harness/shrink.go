package main

import (
	"bytes"
	"encoding/json"
	"sync"
	"time"

	"zsim/rt"
)

// shrinker makes a failing scenario smaller; every candidate runs in a fresh
// process. The workload is reduced on its JSON form: elements of lists are
// dropped, optional objects removed, numbers lowered.
type shrinker struct {
	rp    *Replay
	pre   []*Scenario
	sc    *Scenario
	sig   string
	end   time.Time
	limit time.Duration
	tries int
}

func newShrinker(rp *Replay, pre []*Scenario, sc *Scenario, sig string, end time.Time, limit time.Duration) *shrinker {
	return &shrinker{rp: rp, pre: pre, sc: sc, sig: sig, end: end, limit: limit}
}

func (s *shrinker) fails(sc *Scenario) bool {
	s.tries++
	scs := append(append([]*Scenario{}, s.pre...), sc)
	v, _, _ := try(s.rp, scs, s.limit)
	return signature(v.Class, v.Msg) == s.sig
}

// firstFailing tries candidates eight at a time and returns the first that fails.
func (s *shrinker) firstFailing(cands []*Scenario) int {
	for at := 0; at < len(cands); at += 8 {
		if time.Now().After(s.end) {
			return -1
		}
		n := min(8, len(cands)-at)
		res := make([]bool, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				scs := append(append([]*Scenario{}, s.pre...), cands[at+i])
				v, _, _ := try(s.rp, scs, s.limit)
				res[i] = signature(v.Class, v.Msg) == s.sig
			}(i)
		}
		wg.Wait()
		s.tries += n
		for i := range res {
			if res[i] {
				return at + i
			}
		}
	}
	return -1
}

type jpath []any // string keys and int indices

func get(v any, p jpath) any {
	for _, k := range p {
		switch k := k.(type) {
		case string:
			m, _ := v.(map[string]any)
			v = m[k]
		case int:
			l, _ := v.([]any)
			if k >= len(l) {
				return nil
			}
			v = l[k]
		}
	}
	return v
}

func deep(v any) any {
	switch v := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, x := range v {
			m[k] = deep(x)
		}
		return m
	case []any:
		l := make([]any, len(v))
		for i, x := range v {
			l[i] = deep(x)
		}
		return l
	}
	return v
}

// set returns a copy of root in which the value at p is x.
func set(root any, p jpath, x any) any {
	r := deep(root)
	if len(p) == 0 {
		return x
	}
	parent := get(r, p[:len(p)-1])
	switch k := p[len(p)-1].(type) {
	case string:
		if x == nil {
			delete(parent.(map[string]any), k)
		} else {
			parent.(map[string]any)[k] = x
		}
	case int:
		parent.([]any)[k] = x
	}
	return r
}

func walk(v any, p jpath, f func(p jpath, v any)) {
	f(append(jpath{}, p...), v)
	switch v := v.(type) {
	case map[string]any:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			if len(p) == 0 && (k == "prop" || k == "index") {
				continue
			}
			walk(v[k], append(p, k), f)
		}
	case []any:
		for i := range v {
			walk(v[i], append(p, i), f)
		}
	}
}

func sortStrings(a []string) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func fromTree(t any) *Scenario {
	b, err := json.Marshal(t)
	if err != nil {
		return nil
	}
	sc := &Scenario{}
	if json.Unmarshal(b, sc) != nil {
		return nil
	}
	return sc
}

func toTree(sc *Scenario) any {
	b, _ := json.Marshal(sc)
	var t any
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	dec.Decode(&t)
	return t
}

func (s *shrinker) workload() *Scenario {
	script := s.sc.Sched.Script
	s.sc.Sched.Script = nil
	tree := toTree(s.sc)
	for time.Now().Before(s.end) {
		type cand struct {
			t    any
			size int
		}
		var cands []cand
		// lists: halves, then single elements; objects: optional ones; numbers: 0, half, minus one
		walk(tree, nil, func(p jpath, v any) {
			if len(p) == 0 {
				return
			}
			if p[0] == "sched" && len(p) > 1 {
				switch p[1] {
				case "seed", "maxsteps", "strategy":
					return
				}
			}
			switch v := v.(type) {
			case []any:
				n := len(v)
				for size := n; size >= 1; size /= 2 {
					for at := 0; at+size <= n; at += size {
						l := append(append([]any{}, v[:at]...), v[at+size:]...)
						cands = append(cands, cand{set(tree, p, l), 1000 * size})
					}
					if n > 16 && size < n/8 {
						break
					}
				}
			case map[string]any:
				if k, ok := p[len(p)-1].(string); ok && k != "sched" {
					cands = append(cands, cand{set(tree, p, nil), 500})
				}
			case bool:
				if v {
					cands = append(cands, cand{set(tree, p, nil), 5})
				}
			case json.Number:
				x, err := v.Int64()
				if err != nil || p[len(p)-1] == "seed" || x == 0 {
					return
				}
				if _, idx := p[len(p)-1].(int); idx {
					cands = append(cands, cand{set(tree, p, 0), 4})
				} else {
					cands = append(cands, cand{set(tree, p, nil), 6})
				}
				if x > 2 || x < -2 {
					cands = append(cands, cand{set(tree, p, x/2), 3})
				}
				if x > 1 {
					cands = append(cands, cand{set(tree, p, x-1), 2})
				}
			}
		})
		// big cuts first
		buckets := map[int][]any{}
		var order []int
		for _, c := range cands {
			if _, ok := buckets[c.size]; !ok {
				order = append(order, c.size)
			}
			buckets[c.size] = append(buckets[c.size], c.t)
		}
		for i := range order {
			for j := i; j > 0 && order[j] > order[j-1]; j-- {
				order[j], order[j-1] = order[j-1], order[j]
			}
		}
		var list []any
		for _, o := range order {
			list = append(list, buckets[o]...)
		}
		progress := false
		for at := 0; at < len(list) && time.Now().Before(s.end); {
			n := min(8, len(list)-at)
			var scs []*Scenario
			var trees []any
			for _, t := range list[at : at+n] {
				if sc := fromTree(t); sc != nil && len(sc.Clients) > 0 {
					sc.Prop, sc.Index = s.sc.Prop, s.sc.Index
					scs, trees = append(scs, sc), append(trees, t)
				}
			}
			if i := s.firstFailing(scs); i >= 0 {
				tree, progress = trees[i], true
				break
			}
			at += n
		}
		if !progress {
			break
		}
	}
	sc := fromTree(tree)
	sc.Sched.Script = script
	return sc
}

// schedule drops decisions from the script while the failure stays.
func (s *shrinker) schedule() *Scenario {
	with := func(ds []rt.Decision) *Scenario {
		c := *s.sc
		c.Sched.Script = ds
		return &c
	}
	ds := s.sc.Sched.Script
	for size := len(ds); size > 0 && time.Now().Before(s.end); {
		var cands []*Scenario
		var keep [][]rt.Decision
		for at := 0; at < len(ds); at += size {
			k := append(append([]rt.Decision{}, ds[:at]...), ds[min(at+size, len(ds)):]...)
			keep = append(keep, k)
			cands = append(cands, with(k))
		}
		if i := s.firstFailing(cands); i >= 0 {
			ds = keep[i]
			if size > len(ds) {
				size = len(ds)
			}
			continue
		}
		size /= 2
	}
	return with(ds)
}
