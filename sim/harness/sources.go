package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/mat"

	"zsim/rt"
	"zsim/simfs"
)

// errors a source may fail with; none of them is end-of-file
var readErrors = []error{
	errors.New("simulated read failure"),
	io.ErrUnexpectedEOF,
	syscall.EIO,
	&fs.PathError{Op: "read", Path: "/model", Err: syscall.EIO},
	os.ErrDeadlineExceeded,
	syscall.ECONNRESET,
	io.ErrClosedPipe,
	context.Canceled,
	timeoutErr{},
	fs.ErrClosed,
	syscall.EINTR,
	fmt.Errorf("wrapped: %w", syscall.ESTALE),
	io.ErrNoProgress,
	io.ErrShortBuffer,
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

var writeErrors = []error{
	syscall.ENOSPC, syscall.EIO, errors.New("simulated write failure"), syscall.EDQUOT, io.ErrClosedPipe, io.ErrShortWrite, io.EOF, syscall.EPIPE,
}

var openErrors = []error{syscall.ENOENT, syscall.EACCES, syscall.EMFILE, syscall.EIO, syscall.ENOTDIR, syscall.EISDIR, syscall.EINTR}

func errOf(list []error, i int) error {
	if i < 0 {
		i = -i
	}
	return list[i%len(list)]
}

// source is a reader that follows a Src plan.
type source struct {
	data   []byte
	off    int
	p      *Src
	r      rt.Rand
	dr     rt.Rand // for delays: what is delivered does not depend on them
	empty  int
	failed bool
	stall  bool
	closed bool
	reads  int
	// Surfaced is set when an error other than EOF was returned
	surfaced bool
	// hang is called, and does not return, once hangAt bytes were delivered
	hang   func()
	hangAt int
}

func newSource(data []byte, p *Src) *source {
	s := &source{data: data, p: p, r: rt.NewRand(p.Seed ^ 0x77), dr: rt.NewRand(p.Seed ^ 0x99)}
	if p.Pre > 0 {
		s.data = append(bytes.Repeat([]byte("#"), p.Pre), data...)
	}
	if p.Cut > 0 && p.Cut-1 < len(data) {
		s.data = s.data[:p.Pre+p.Cut-1]
		count(cCut)
	}
	return s
}

func (s *source) end() int {
	n := len(s.data)
	if e := s.p.ErrAt; e > 0 && !s.failed && s.p.Pre+e-1 < n {
		n = s.p.Pre + e - 1
	}
	return n
}

// Read follows the plan; what it delivers becomes part of the run's digest.
func (s *source) Read(b []byte) (int, error) {
	n, err := s.read(b)
	x := uint64(n) << 2
	if err == io.EOF {
		x |= 1
	} else if err != nil {
		x |= 2
	}
	rt.Mix(x)
	return n, err
}

func (s *source) read(b []byte) (int, error) {
	rt.Point()
	s.reads++
	if s.p.StallAt > 0 && !s.stall && s.off >= s.p.StallAt-1 {
		s.stall = true
		count(cStall)
		rt.Sleep(s.p.Stall)
	}
	if s.hang != nil && s.off >= s.hangAt {
		s.hang()
	}
	if s.p.Delay > 0 && s.dr.Chance(40) {
		count(cDelay)
		rt.Sleep(1 + int64(s.dr.U64()%uint64(s.p.Delay)))
	}
	if len(b) == 0 {
		return 0, nil
	}
	if s.p.Empty > 0 && s.empty < 3 && s.r.Chance(s.p.Empty) {
		s.empty++
		count(cEmptyRead)
		return 0, nil
	}
	s.empty = 0
	errHere := s.p.ErrAt > 0 && s.p.Pre+s.p.ErrAt-1 <= len(s.data)
	if errHere && s.failed {
		switch s.p.After {
		case 0:
			return 0, errOf(readErrors, s.p.Err)
		case 2:
			return 0, io.EOF
		}
	}
	end := s.end()
	n := end - s.off
	if s.hang != nil && n > s.hangAt-s.off {
		n = s.hangAt - s.off
		copy(b, s.data[s.off:s.off+min(n, len(b))])
		s.off += min(n, len(b))
		return min(n, len(b)), nil
	}
	if n > len(b) {
		n = len(b)
	}
	if c := s.p.Chunk; c > 0 && n > 1 {
		if m := 1 + s.r.Intn(c); m < n {
			n = m
			count(cShortRead)
		}
	}
	copy(b, s.data[s.off:s.off+n])
	s.off += n
	if s.off < end {
		return n, nil
	}
	if errHere && !s.failed {
		if n > 0 && !s.p.ErrData {
			return n, nil
		}
		s.failed = true
		s.surfaced = true
		count(cReadErr)
		if n > 0 {
			count(cReadErrData)
		}
		if s.p.After == 1 {
			count(cTransient)
		} else if s.p.After == 2 {
			count(cErrThenEOF)
		}
		return n, errOf(readErrors, s.p.Err)
	}
	if n == 0 {
		return 0, io.EOF
	}
	if s.p.DataEOF {
		count(cDataEOF)
		return n, io.EOF
	}
	return n, nil
}

// genDelivery is a fault-free but awkward delivery plan.
func genDelivery(r *rt.Rand) *Src {
	s := &Src{Seed: r.U64() >> 20}
	s.Buf = pick(r, 0, 16, 17, 64, 100, 512, 4096, 70000)
	s.Chunk = pick(r, 0, 1, 2, 3, 7, 20, 100, 1000, 5000)
	s.Empty = pick(r, 0, 0, 10, 40)
	s.DataEOF = r.Chance(40)
	if r.Chance(30) {
		s.Delay = pick(r, int64(1000), 1000000, 1000000000)
	}
	if r.Chance(15) {
		s.Pre = 1 + r.Intn(100)
	}
	return s
}

// addReadError puts a read error somewhere into n bytes.
func addReadError(r *rt.Rand, s *Src, n int) {
	s.ErrAt = 1 + r.Intn(n+1)
	switch r.Intn(6) {
	case 0:
		s.ErrAt = 1 + r.Intn(min(n+1, 20))
	case 1:
		s.ErrAt = 1 + n - r.Intn(min(n+1, 20))
	}
	s.Err = r.Intn(len(readErrors))
	s.ErrData = r.Chance(50)
	s.After = r.Intn(3)
}

// ---- loaders ----

// reader makes the buffered reader a caller would hand to a loader.
func (s *source) buffered() *bufio.Reader {
	var b *bufio.Reader
	if s.p.Buf > 0 {
		b = bufio.NewReaderSize(s, s.p.Buf)
	} else {
		b = bufio.NewReader(s)
	}
	if s.p.Pre > 0 {
		b.Discard(s.p.Pre)
	}
	return b
}

// loadReader loads model bytes of a kind through a reader.
func loadReader(kind string, trans bool, src *source) (*leaves.Ensemble, error) {
	count(cLoads)
	var e *leaves.Ensemble
	var err error
	switch kind {
	case "lgtext":
		e, err = leaves.LGEnsembleFromReader(src.buffered(), trans)
	case "lgjson":
		if src.p.Buf > 0 || src.p.Pre > 0 {
			e, err = leaves.LGEnsembleFromJSON(src.buffered(), trans)
		} else {
			e, err = leaves.LGEnsembleFromJSON(src, trans)
		}
	case "xgtree", "xgdart":
		e, err = leaves.XGEnsembleFromReader(src.buffered(), trans)
	case "xglinear":
		e, err = leaves.XGBLinearFromReader(src.buffered(), trans)
	case "sk":
		e, err = leaves.SKEnsembleFromReader(src.buffered(), trans)
	default:
		panic("kind " + kind)
	}
	if err != nil {
		count(cLoadErrs)
	}
	return e, err
}

func hasFileLoader(kind string) bool { return kind != "lgjson" }

func loadFile(kind string, trans bool, name string) (*leaves.Ensemble, error) {
	count(cLoads)
	var e *leaves.Ensemble
	var err error
	switch kind {
	case "lgtext":
		e, err = leaves.LGEnsembleFromFile(name, trans)
	case "xgtree", "xgdart":
		e, err = leaves.XGEnsembleFromFile(name, trans)
	case "xglinear":
		e, err = leaves.XGBLinearFromFile(name, trans)
	case "sk":
		e, err = leaves.SKEnsembleFromFile(name, trans)
	default:
		panic("kind " + kind)
	}
	if err != nil {
		count(cLoadErrs)
	}
	return e, err
}

// clean loads a model from intact memory; failure is a violation of class.
func clean(m *Model) *leaves.Ensemble {
	e, err := loadReader(m.Kind, m.Trans, newSource(m.bytes, &Src{}))
	if err != nil {
		fail("load-refused", "intact %s model is refused: %v", m.Kind, err)
	}
	if e == nil {
		fail("load-nil", "intact %s model: nil ensemble without an error", m.Kind)
	}
	return e
}

// faultsOf turns a Src plan into faults of a simulated file of n bytes.
func faultsOf(p *Src) *simfs.Faults {
	f := simfs.NoFaults()
	f.MaxChunk, f.Seed = p.Chunk, p.Seed
	f.Delay = p.Delay
	if p.ErrAt > 0 {
		f.ReadErrAt = int64(p.ErrAt - 1)
		f.ReadErr = errOf(readErrors, p.Err)
	}
	if p.OpenErr > 0 {
		f.OpenErr = errOf(openErrors, p.OpenErr)
	}
	return f
}

// names a file may have; D is the directory and N the name that tells it apart
var fileNames = []string{
	"D/N.gz", "D/N.json", "D/N.bin", "D/N.txt", "D/N.csv", "D/N.tmp", "D/N~", "D/a b N", "D/N%s%d", "D/$HOME-N", "D/${N}", "D/модель-N",
	"N", "./N", "../work/N", "D//N", "D/./N.model", "-N", "D/.N", "D/N-" + strings.Repeat("long", 48), "D/N.PKL", "~N", "D/N?x=1#y", "file:N",
	"D/N*[a]", "D/N\n", " D/N", "D/N ", "D/N.zip", "D/N.libsvm", "D/N.tsv", "D/v1.2/../N", "D/N.", "D/N.old", "D/N.bz2", "N.pickle", "http:N", "D/\xffN",
}

// file is the name of a file of the operation.
func (op *Op) file(dir, id, ext string) string {
	if op.Name <= 0 {
		return dir + "/" + id + ext
	}
	s := fileNames[(op.Name-1)%len(fileNames)]
	if s[0] == ' ' { // a relative name that starts with a blank
		s = " N"
	}
	return strings.NewReplacer("D", dir, "N", id).Replace(s)
}

// place puts bytes on the simulated disk under the delivery plan.
func (c *ctx) place(name string, data []byte, p *Src) *simfs.Entry {
	if p.Cut > 0 && p.Cut-1 < len(data) {
		data = data[:p.Cut-1]
		count(cCut)
	}
	e := c.disk.Put(name, append([]byte{}, data...))
	e.F = faultsOf(p)
	return e
}

// ---- behaviour of an ensemble ----

// finger is what can be observed of an ensemble.
type finger struct {
	desc string
	hash uint64
	vals []float64
}

const hugeModel = 1 << 20

// fingerprint observes e on probe rows derived from seed; m may be nil.
func fingerprint(e *leaves.Ensemble, m *Model, seed uint64, rows int) finger {
	f := finger{hash: 7}
	nf := e.NFeatures()
	nl := e.NLeaves()
	f.desc = fmt.Sprintf("%s features=%d estimators=%d raw=%d out=%d transform=%s leaves=%v", e.Name(), nf, e.NEstimators(),
		e.NRawOutputGroups(), e.NOutputGroups(), e.Transformation().Name(), nl)
	if len(f.desc) > 4000 {
		f.desc = f.desc[:4000]
	}
	if nf > hugeModel || nf < 0 || e.NOutputGroups() > hugeModel {
		return f
	}
	r := rt.NewRand(seed)
	views := []*leaves.Ensemble{e, e.EnsembleWithRawPredictions()}
	if m == nil || !m.isLin {
		views = append(views, e.EnsembleWithLeafPredictions())
	}
	for i := 0; i < rows; i++ {
		row := make([]float64, nf)
		if m != nil && m.Feat == nf {
			copy(row, m.row(&r, i%nRowModes, true))
		} else {
			for j := range row {
				row[j] = norm(&r) * 3
				if m != nil && j < m.Feat {
					row[j] = m.value(&r, j, rowNear, true)
				}
			}
		}
		for vi, v := range views {
			n := 0
			if vi < 2 && i%4 == 3 {
				n = 1 + r.Intn(3)
			}
			out := make([]float64, v.NOutputGroups())
			if err := v.Predict(row, n, out); err != nil {
				f.desc += " predict: error"
				return f
			}
			f.hash = hashF(f.hash, out...)
			f.vals = append(f.vals, out...)
		}
	}
	return f
}

// eq compares two observations.
func (f finger) eq(g finger) bool {
	if f.desc != g.desc || len(f.vals) != len(g.vals) {
		return false
	}
	for i := range f.vals {
		if !same(f.vals[i], g.vals[i]) {
			return false
		}
	}
	return true
}

func (f finger) diff(g finger) string {
	if f.desc != g.desc {
		return fmt.Sprintf("%q instead of %q", g.desc, f.desc)
	}
	for i := range f.vals {
		if i < len(g.vals) && !same(f.vals[i], g.vals[i]) {
			return fmt.Sprintf("probe value %d is %v instead of %v", i, g.vals[i], f.vals[i])
		}
	}
	return "different number of probe values"
}

// view derives an ensemble by a chain of raw (r) and leaf (l) views.
func view(e *leaves.Ensemble, chain string) *leaves.Ensemble {
	for _, x := range chain {
		count(cViews)
		if x == 'l' {
			e = e.EnsembleWithLeafPredictions()
		} else {
			e = e.EnsembleWithRawPredictions()
		}
	}
	return e
}

// isLeafView: the last view of the chain decides.
func isLeafView(chain string) bool { return len(chain) > 0 && chain[len(chain)-1] == 'l' }

// ---- matrices ----

// matKind: dense-libsvm, csr-libsvm, csv
func loadMat(kind string, b *bufio.Reader, limit int, skip bool, delim string, def float64) (any, error) {
	count(cMatReads)
	var err error
	var out any
	switch kind {
	case "svmdense":
		var m *mat.DenseMat
		m, err = mat.DenseMatFromLibsvm(b, limit, skip)
		if m != nil {
			out = m
		}
	case "svmcsr":
		var m *mat.CSRMat
		m, err = mat.CSRMatFromLibsvm(b, limit, skip)
		if m != nil {
			out = m
		}
	default:
		var m *mat.DenseMat
		m, err = mat.DenseMatFromCsv(b, limit, skip, delim, def)
		if m != nil {
			out = m
		}
	}
	if err != nil {
		count(cMatErrs)
	}
	return out, err
}

func loadMatFile(kind, name string, limit int, skip bool, delim string, def float64) (any, error) {
	count(cMatReads)
	var err error
	var out any
	switch kind {
	case "svmdense":
		var m *mat.DenseMat
		m, err = mat.DenseMatFromLibsvmFile(name, limit, skip)
		if m != nil {
			out = m
		}
	case "svmcsr":
		var m *mat.CSRMat
		m, err = mat.CSRMatFromLibsvmFile(name, limit, skip)
		if m != nil {
			out = m
		}
	default:
		var m *mat.DenseMat
		m, err = mat.DenseMatFromCsvFile(name, limit, skip, delim, def)
		if m != nil {
			out = m
		}
	}
	if err != nil {
		count(cMatErrs)
	}
	return out, err
}
