package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unsafe"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/mat"

	"zsim/rt"
	ssync "zsim/shim/sync"
	"zsim/simfs"
)

// ---- C17: a data file is scored from end to end ----

// The first op of a client is its job (K how the data is stored, Limit the
// sizes of the pieces, A how the pieces are worked on), the others are attempts
// with their faults. After them comes an attempt without faults.
const (
	pipeSeq      = iota // read, predict, write, piece by piece
	pipePrefetch        // the next piece is read while this one is worked on
	pipeReload          // the model is loaded again for every piece
	pipeFan             // all pieces are read, then worked on at the same time
	nPipe
)

// how an attempt crashes: its process stands still for ever at a byte
const (
	crashNot = iota
	crashModel
	crashData
	crashWrite
	crashClose
	nCrash
)

func init() {
	props["C17"] = &prop{
		big: 2, byDigest: true, quick: 14000, thorough: 400000,
		rule: "a run has one to three clients that each score a generated data file: load the model, read the rows in limited pieces, predict each piece, write each result file; attempts meet failing sources, failing and full disks and crashes in the middle of an operation and are retried until one meets no fault; non-trivial if a fault fired or the job had at least two pieces; distinct by models, data, pieces and faults",
		gen: func(r *rt.Rand, sc *Scenario) {
			genModels(r, sc, 1, kinds)
			genTwin(r, sc, 30)
			for i := 0; i < pick(r, 1, 1, 1, 2, 2, 3); i++ {
				mi := r.Intn(len(sc.Models))
				s := sc.Models[mi]
				op := Op{K: pick(r, "svmdense", "svmcsr", "csv"), M: mi, Seed: r.U64() >> 20, Rows: 1 + r.Intn(12)}
				if r.Chance(40) {
					op.Rows = 12 + r.Intn(110)
				}
				op.Skip = r.Chance(60)
				op.Delim = pick(r, ",", ",", ";", "\t", "||", " ", "|")
				op.V = genView(r, s)
				if !isLeafView(op.V) {
					op.N = genLimit(r, s.Iters)
				}
				op.T = genThreads(r)
				op.A = r.Intn(nPipe)
				if r.Chance(25) {
					op.Extra = 1 + r.Intn(3)
				}
				if r.Chance(25) {
					op.Flag |= mCRLF
				}
				if r.Chance(30) {
					op.Flag |= mNoLast
				}
				if r.Chance(40) {
					op.Flag |= fNoExact
				}
				if r.Chance(20) {
					op.N2 = 1 + r.Intn(4000) // older, longer result files are in the way
				}
				if r.Chance(80) {
					for n := 1 + r.Intn(4); n > 0; n-- {
						op.Limit = append(op.Limit, 1+r.Intn(pick(r, 3, 20, max(2, op.Rows))))
					}
				}
				ops := []Op{op}
				for n := r.Intn(4); n > 0; n-- {
					t := Op{K: "try", Src: genDelivery(r), Src2: genDelivery(r), Wr: &Wr{Err: r.Intn(len(writeErrors))}, T: r.Intn(6)}
					t.Src.File, t.Src2.File = r.Chance(40), r.Chance(30)
					t.Src.Delay, t.Src2.Delay = min(t.Src.Delay, 1000000), min(t.Src2.Delay, 1000000)
					if r.Chance(70) {
						t.Src.Chunk, t.Src.Empty = pick(r, 0, 100, 1000), 0
						t.Src2.Chunk = pick(r, 0, 7, 100, 1000)
					}
					switch r.Intn(9) {
					case 0:
						addReadError(r, t.Src, 30000)
						t.N = r.Intn(4)
					case 1, 2:
						addReadError(r, t.Src2, 30000)
						t.N = r.Intn(4)
					case 3:
						t.Wr.Cap = 1 + r.Intn(1<<15)
						t.N = r.Intn(4)
					case 4:
						t.Wr.Open = 1 + r.Intn(len(openErrors))
					case 5:
						t.Wr.Close = 1 + r.Intn(len(writeErrors))
					case 6:
						if r.Chance(50) {
							t.Src.OpenErr = 1 + r.Intn(len(openErrors))
						} else {
							t.Src2.OpenErr = 1 + r.Intn(len(openErrors))
						}
					default:
						t.A = 1 + r.Intn(nCrash-1)
						t.Rows = r.Intn(1 << 15) // where
						t.N = r.Intn(4)
					}
					ops = append(ops, t)
				}
				sc.Clients = append(sc.Clients, ops)
			}
		},
		run:        runC17,
		allocLimit: loadAlloc,
	}
}

// pipe is one client's job.
type pipe struct {
	c      *ctx
	id     int
	op     Op
	m      *Model
	rows   [][]float64 // as a dense row with the missing value
	data   []byte
	groups int
	parts  [][2]int // rows of each piece
	want   [][]float64
	done   int // pieces known to be written
	plans  map[int]*simfs.Faults
}

// attempt is one try of a job in a "process" of its own.
type attempt struct {
	p    *pipe
	tag  int
	op   Op
	m, d Src

	dataName string
	over     bool
	crashed  bool
	err      error
	srcs     []*source
	crash    func()
}

// dataRows writes the rows of a job as the text of its data file.
func (p *pipe) build() {
	op := p.op
	r := rt.NewRand(op.Seed ^ 0x17)
	n := clamp(op.Rows, 1, 2000)
	cols := p.m.Feat + clamp(op.Extra, 0, 20)
	if p.op.K != "svmcsr" && !op.Skip && cols < 2 {
		cols = 2
	}
	exact := op.Flag&fNoExact == 0
	nl := "\n"
	if op.Flag&mCRLF != 0 {
		nl = "\r\n"
	}
	delim := op.delim()
	blank := strings.TrimSpace(delim) != delim
	miss := p.m.missing()
	var lines []string
	for i := 0; i < n; i++ {
		row := p.m.row(&r, r.Intn(nRowModes), exact)
		for len(row) < cols {
			row = append(row, norm(&r))
		}
		var t []string
		if op.Skip {
			t = append(t, pick(&r, "0", "1", "-1", "2.5", "7"))
		}
		switch op.K {
		case "csv":
			for j := range row {
				s := strconv.FormatFloat(row[j], 'g', -1, 64)
				if !blank && len(row)+len(t) > 1 && r.Chance(10) {
					s, row[j] = "", miss
				}
				t = append(t, s)
			}
			lines = append(lines, strings.Join(t, delim))
		case "svmdense":
			for j := range row {
				t = append(t, strconv.Itoa(j)+":"+strconv.FormatFloat(row[j], 'g', -1, 64))
			}
			lines = append(lines, strings.Join(t, " "))
		default:
			density := pick(&r, 0, 20, 50, 90, 100)
			first := len(t)
			for j := range row {
				if r.Chance(density) && j < p.m.Feat {
					t = append(t, strconv.Itoa(j)+":"+strconv.FormatFloat(row[j], 'g', -1, 64))
				} else {
					row[j] = miss
				}
			}
			if r.Chance(20) {
				for a, b := range perm(&r, len(t)-first) {
					u := t[first:]
					u[a], u[b] = u[b], u[a]
				}
			}
			for len(t) < 2 { // columns no tree asks for
				t = append(t, strconv.Itoa(p.m.Feat+r.Intn(1000))+":1")
			}
			lines = append(lines, strings.Join(t, " "))
		}
		p.rows = append(p.rows, row)
	}
	s := strings.Join(lines, nl)
	if op.Flag&mNoLast == 0 {
		s += nl
	}
	p.data = []byte(s)
	for at, k := 0, 0; at < n; k++ {
		l := n
		if len(op.Limit) > 0 {
			l = clamp(op.Limit[k%len(op.Limit)], 1, n)
		}
		p.parts = append(p.parts, [2]int{at, min(n, at+l)})
		at = min(n, at+l)
	}
}

func (p *pipe) part(k int) string {
	return p.op.file("/out", fmt.Sprintf("job%d_%d", p.id, k), ".csv")
}

// limit of the read of piece k
func (p *pipe) limit(k int) int {
	if len(p.op.Limit) == 0 {
		return 0
	}
	return max(1, p.op.Limit[k%len(p.op.Limit)])
}

func runC17(c *ctx) {
	dir := c.disk.Put("/out", nil)
	dir.Node.Dir = true
	refs := c.cleanAll()
	var ps []*pipe
	for i, ops := range c.sc.Clients {
		if len(ops) == 0 || ops[0].K == "try" {
			ps = append(ps, nil)
			continue
		}
		p := &pipe{c: c, id: i, op: ops[0], m: c.model(ops[0])}
		p.op.M = clamp(p.op.M, 0, len(refs)-1)
		p.build()
		e := view(refs[p.op.M], p.op.V)
		p.groups = e.NOutputGroups()
		for k, row := range p.rows {
			o := make([]float64, p.groups)
			if err := e.Predict(row, p.op.N, o); err != nil {
				fail("row-refused", "Predict refuses row %d (%d features given, %d needed): %v", k, len(row), e.NFeatures(), err)
			}
			p.want = append(p.want, o)
			if p.op.Flag&fNoExact != 0 && !isLeafView(p.op.V) {
				f := p.m.out
				if p.op.V != "" {
					f = p.m.raw
				}
				w, tol := f(row[:p.m.Feat], p.op.N)
				for j := range w {
					if j < len(o) && !near(o[j], w[j], tol[j]) {
						fail("wrong-value", "row %d output %d of a %s model is %v, the file says %v", k, j, p.m.Kind, o[j], w[j])
					}
				}
			}
		}
		if len(p.parts) > 1 {
			c.hit()
		}
		if p.op.N2 > 0 {
			for k := range p.parts {
				c.disk.Put(p.part(k), bytes.Repeat([]byte("9,9\n"), p.op.N2/4+1))
			}
		}
		ps = append(ps, p)
	}
	c.disk.Log = nil
	dead := map[int]bool{}
	plans := map[int]*simfs.Faults{}
	c.disk.WFault = func(tag int) *simfs.Faults { return plans[tag] }
	c.disk.OnOp = func(tag int) {
		if dead[tag%partTag] {
			rt.Abandon(func(t int) bool { return t%partTag == tag%partTag })
		}
	}
	c.parallel(func(i int) {
		p := ps[i]
		if p == nil {
			return
		}
		tries := append([]Op{}, c.sc.Clients[i][1:]...)
		for k := 0; ; k++ {
			healthy := k >= len(tries)
			op := Op{K: "try", Src: &Src{Seed: uint64(k)}, Src2: &Src{Seed: uint64(k)}}
			if !healthy {
				op = tries[k]
				if op.K != "try" {
					continue
				}
			}
			a := &attempt{p: p, tag: 1000*(i+1) + k, op: op}
			count(cAttempts)
			p.plans = plans
			a.faults()
			key := unsafe.Pointer(a)
			abandon := func() { rt.Abandon(func(t int) bool { return t%partTag == a.tag }) }
			a.crash = func() {
				// the process crashes here: none of its operations happens any more
				a.crashed, a.over = true, true
				dead[a.tag] = true
				rt.Wake(key)
				abandon()
			}
			rt.Go(func() {
				rt.SetTag(a.tag)
				a.err = a.run(a.crash)
				if dead[a.tag] {
					abandon()
				}
				a.over = true
				rt.Wake(key)
			})
			for !a.over {
				rt.Park(key)
			}
			a.judge(healthy)
			if healthy || a.err == nil && !a.crashed {
				return
			}
			if a.crashed && len(c.sc.Clients) == 1 {
				// the next attempt is a new process
				rt.Quiet(true)
				c.newProcess()
				rt.Quiet(false)
			}
		}
	})
	rt.Sleep(1e12)
	for i, p := range ps {
		if p == nil {
			continue
		}
		p.check(len(p.parts))
		_ = i
	}
}

// faults prepares the disk for the attempt.
func (a *attempt) faults() {
	p, op := a.p, a.op
	if op.Src == nil {
		op.Src = &Src{}
	}
	if op.Src2 == nil {
		op.Src2 = &Src{}
	}
	if op.Wr == nil {
		op.Wr = &Wr{}
	}
	a.op = op
	t := op
	t.T = op.N
	a.m = placeErr(t, p.m.bytes)
	t.Src = op.Src2
	a.d = placeErr(t, p.data)
	if p.m.Kind == "lgjson" {
		a.m.File = false
	}
	if len(p.op.Limit) == 0 {
		a.d.File = true
	}
	if a.d.File {
		a.d.After, a.d.ErrData = 0, false
	}
	k := op.T % len(p.parts)
	cap := -1
	if op.Wr.Cap > 0 {
		cap = p.place(op.Wr.Cap-1, op.N, p.size(k)-1)
	}
	p.plans[a.tag+partTag*(k+1)] = writeFaults(op.Wr, cap)
	if op.A >= crashWrite {
		f := p.plans[a.tag+partTag*(k+1)]
		f.HangAt, f.HangClose = int64(a.crashAt(crashWrite, p.size(k))), op.A == crashClose
		f.Hang = func() { count(cCrashWrite); a.crash() }
	}
}

// the tag of writing a piece of attempt t is t + partTag*(1+piece)
const partTag = 1000000

// crashAt says where in n bytes the attempt stops, or -1.
func (a *attempt) crashAt(kind, n int) int {
	if a.op.A != kind {
		return -1
	}
	return a.p.place(a.op.Rows, a.op.N, n)
}

// place maps a number to an offset in 0..n.
func (p *pipe) place(x, how, n int) int {
	if n < 0 {
		return 0
	}
	switch how {
	case 0:
		return n - x%min(n+1, 10)
	case 1:
		return x % min(n+1, 50)
	}
	return x % (n + 1)
}

// size of result file k when it is complete
func (p *pipe) size(k int) int {
	out := &mat.DenseMat{Rows: p.parts[k][1] - p.parts[k][0], Cols: p.groups}
	for i := p.parts[k][0]; i < p.parts[k][1]; i++ {
		out.Values = append(out.Values, p.want[i]...)
	}
	var b bytes.Buffer
	out.WriteStr(&b, p.op.delim())
	return b.Len()
}

var errRows = errors.New("rows are missing")

func (a *attempt) load(crash func()) (*leaves.Ensemble, error) {
	p, c := a.p, a.p.c
	s := a.m
	at := a.crashAt(crashModel, len(p.m.bytes))
	if s.File && hasFileLoader(p.m.Kind) {
		name := p.op.file("/data", fmt.Sprintf("model_%d_%d", p.id, a.tag), "")
		e := c.place(name, p.m.bytes, &s)
		if at >= 0 {
			e.F.HangAt, e.F.Hang = int64(at), func() { count(cCrashRead); crash() }
		}
		return loadFile(p.m.Kind, p.m.Trans, name)
	}
	if s.OpenErr > 0 {
		s.OpenErr = 0
	}
	src := newSource(p.m.bytes, &s)
	if at >= 0 {
		src.hangAt, src.hang = s.Pre+at, func() { count(cCrashRead); crash() }
	}
	a.srcs = append(a.srcs, src)
	return loadReader(p.m.Kind, p.m.Trans, src)
}

// stream is the data file being read.
type stream struct {
	a    *attempt
	b    *bufio.Reader
	name string
}

func (a *attempt) open(crash func()) *stream {
	p, c := a.p, a.p.c
	s := a.d
	at := a.crashAt(crashData, len(p.data))
	if s.File && len(p.op.Limit) == 0 {
		name := p.op.file("/data", fmt.Sprintf("data_%d_%d", p.id, a.tag), "")
		a.dataName = simfs.Abs(name)
		e := c.place(name, p.data, &s)
		if at >= 0 {
			e.F.HangAt, e.F.Hang = int64(at), func() { count(cCrashRead); crash() }
		}
		return &stream{a: a, name: name}
	}
	s.OpenErr, s.File = 0, false
	src := newSource(p.data, &s)
	if at >= 0 {
		src.hangAt, src.hang = s.Pre+at, func() { count(cCrashRead); crash() }
	}
	a.srcs = append(a.srcs, src)
	return &stream{a: a, b: src.buffered()}
}

func (s *stream) read(limit int) (any, error) {
	p := s.a.p
	if s.b == nil {
		return loadMatFile(p.op.K, s.name, limit, p.op.Skip, p.op.delim(), p.m.missing())
	}
	return loadMat(p.op.K, s.b, limit, p.op.Skip, p.op.delim(), p.m.missing())
}

func matRows(g any) int {
	switch g := g.(type) {
	case *mat.DenseMat:
		return g.Rows
	case *mat.CSRMat:
		return g.Rows()
	}
	return 0
}

// run is the whole job as a user would write it.
func (a *attempt) run(crash func()) error {
	p := a.p
	e, err := a.load(crash)
	if err != nil {
		return fmt.Errorf("model: %w", err)
	}
	from := p.done
	if from == len(p.parts) {
		return nil
	}
	st := a.open(crash)
	if from > 0 && st.b != nil {
		n := p.parts[from][0]
		g, err := st.read(n)
		if err != nil {
			return fmt.Errorf("skipping: %w", err)
		}
		if matRows(g) != n {
			return errRows
		}
	}
	score := func(k int, g any) error {
		if p.op.A == pipeReload && k > from {
			if e, err = a.load(crash); err != nil {
				return fmt.Errorf("model: %w", err)
			}
		}
		v := view(e, p.op.V)
		rows := matRows(g)
		out := &mat.DenseMat{Rows: rows, Cols: v.NOutputGroups(), Values: make([]float64, rows*v.NOutputGroups())}
		how := (p.op.Seed >> 5) % 10
		if how == 0 {
			z := mat.DenseMatZero(rows, v.NOutputGroups())
			out = &z
		}
		if d, ok := g.(*mat.DenseMat); ok && how < 3 {
			// the same rows as a sparse matrix; its source is used for something else
			src := append([]float64(nil), d.Values...)
			m, err := mat.CSRMatFromArray(src, d.Rows, d.Cols)
			if err != nil {
				return fmt.Errorf("convert: %w", err)
			}
			for i := range src {
				src[i] = -1e30
			}
			consistent("data", &m, nil)
			g = &m
		}
		var err error
		switch g := g.(type) {
		case *mat.DenseMat:
			err = v.PredictDense(g.Values, g.Rows, g.Cols, out.Values, p.op.N, p.op.T)
		case *mat.CSRMat:
			err = v.PredictCSR(g.RowHeaders, g.ColIndexes, g.Values, out.Values, p.op.N, p.op.T)
		}
		if err != nil {
			return fmt.Errorf("predict: %w", err)
		}
		if how == 1 || how == 4 {
			// the results leave the buffer they were predicted into
			m, err := mat.DenseMatFromArray(out.Values, rows, v.NOutputGroups())
			if err != nil {
				return fmt.Errorf("convert: %w", err)
			}
			for i := range out.Values {
				out.Values[i] = -1e30
			}
			out = &m
		}
		name := p.part(k)
		rt.SetTag(a.tag + partTag*(k+1))
		defer rt.SetTag(a.tag)
		if err := out.ToCsvFile(name, p.op.delim()); err != nil {
			return fmt.Errorf("write: %w", err)
		}
		return nil
	}
	commit := func(k int) {
		p.c.disk.OnOp(a.tag)
		p.done = k + 1
		p.check(p.done)
	}
	get := func(k int) (any, error) {
		g, err := st.read(p.limit(k))
		if err != nil {
			return nil, fmt.Errorf("read: %w", err)
		}
		consistent("data", g, nil)
		if w := p.parts[k]; matRows(g) != w[1]-w[0] {
			return nil, fmt.Errorf("piece %d: %d rows instead of %d: %w", k, matRows(g), w[1]-w[0], errRows)
		}
		return g, nil
	}
	end := func() error {
		if st.b == nil {
			return nil
		}
		g, err := st.read(1)
		if err != nil {
			return fmt.Errorf("end: %w", err)
		}
		if matRows(g) != 0 {
			fail("extra-rows", "%s: %d rows after the last one", p.what(), matRows(g))
		}
		return nil
	}
	switch p.op.A {
	case pipePrefetch:
		type item struct {
			g   any
			err error
		}
		var next item
		next.g, next.err = get(from)
		for k := from; k < len(p.parts); k++ {
			cur := next
			if cur.err != nil {
				return cur.err
			}
			var wg ssync.WaitGroup
			wg.Add(1)
			k := k
			rt.Go(func() {
				if k+1 < len(p.parts) {
					next.g, next.err = get(k + 1)
				}
				wg.Done()
			})
			err := score(k, cur.g)
			wg.Wait()
			if err != nil {
				return err
			}
			commit(k)
		}
	case pipeFan:
		var gs []any
		for k := from; k < len(p.parts); k++ {
			g, err := get(k)
			if err != nil {
				return err
			}
			gs = append(gs, g)
		}
		errs := make([]error, len(gs))
		var wg ssync.WaitGroup
		for at := 0; at < len(gs); at += 6 {
			for i := at; i < min(at+6, len(gs)); i++ {
				i := i
				wg.Add(1)
				rt.Go(func() {
					errs[i] = score(from+i, gs[i])
					wg.Done()
				})
			}
			wg.Wait()
		}
		for i := range gs {
			if errs[i] != nil {
				return errs[i]
			}
			commit(from + i)
		}
	default:
		for k := from; k < len(p.parts); k++ {
			g, err := get(k)
			if err != nil {
				return err
			}
			if err := score(k, g); err != nil {
				return err
			}
			commit(k)
		}
	}
	return end()
}

func (p *pipe) what() string {
	return fmt.Sprintf("job %d (%s data, %d rows in %d pieces, %s model, view %q, limit %d, %d threads)",
		p.id, p.op.K, len(p.rows), len(p.parts), p.m.Kind, p.op.V, p.op.N, p.op.T)
}

// judge looks at a finished or crashed attempt.
func (a *attempt) judge(healthy bool) {
	p, c := a.p, a.p.c
	if a.crashed {
		c.hit()
		count(cCrashes)
		return
	}
	for i := 0; i < len(c.disk.Handles); i++ {
		if h := c.disk.Handles[i]; h.Tag%partTag == a.tag && !h.Closed {
			fail("file-leak", "%s left file %s open", p.what(), h.Path)
		}
	}
	read, write := false, false
	for _, s := range a.srcs {
		read = read || s.surfaced
	}
	for i := range c.disk.Log {
		if o := &c.disk.Log[i]; o.Tag%partTag == a.tag && o.Fault {
			if o.Tag >= partTag {
				write = true
			} else {
				read = true
				if a.err == nil && o.Path == a.dataName && a.d.ErrAt <= len(p.data) {
					fail("swallowed", "%s reports success although its data file failed after %d of %d bytes", p.what(), a.d.ErrAt-1, len(p.data))
				}
			}
		}
	}
	if read || write {
		c.hit()
	}
	if a.err != nil && (healthy || !read && !write) {
		fail("refused", "%s fails although nothing failed around it: %v", p.what(), a.err)
	}
	if a.err == nil {
		count(cJobs)
		for _, s := range a.srcs {
			if s.surfaced && len(s.data) == len(p.data)+s.p.Pre && bytes.Equal(s.data[s.p.Pre:], p.data) {
				fail("swallowed", "%s reports success although the data stream failed after %d of %d bytes", p.what(), s.p.ErrAt-1, len(p.data))
			}
		}
		p.check(len(p.parts))
	} else {
		p.check(p.done)
	}
}

// check compares the first n result files with the rows alone.
func (p *pipe) check(n int) {
	for k := 0; k < n; k++ {
		b, ok := p.c.disk.Get(p.part(k))
		if !ok {
			fail("write-lost", "%s: result file %d of a finished piece is missing", p.what(), k)
		}
		lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		w := p.parts[k]
		if len(lines) != w[1]-w[0] {
			fail("wrong-rows", "%s: result file %d has %d rows instead of %d", p.what(), k, len(lines), w[1]-w[0])
		}
		for i, l := range lines {
			t := strings.Split(l, p.op.delim())
			row := w[0] + i
			if len(t) != p.groups {
				fail("wrong-rows", "%s: row %d has %d results instead of %d", p.what(), row, len(t), p.groups)
			}
			for j, s := range t {
				x, err := strconv.ParseFloat(s, 64)
				if err != nil || !same(x, p.want[row][j]) {
					fail("wrong-result", "%s: result %d of row %d is written as %q, Predict gives %v", p.what(), j, row, s, p.want[row][j])
				}
			}
		}
		countN(cRowsChecked, len(lines))
	}
}
