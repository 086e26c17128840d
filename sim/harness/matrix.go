package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode"

	"github.com/dmitryikh/leaves/mat"

	"zsim/rt"
)

// A generated matrix file. Op fields: K kind, Rows, Extra columns, Seed, Skip,
// Delim, Flag style bits.
const (
	mCRLF      = 1 // lines end in \r\n
	mNoLast    = 2 // no newline at the end
	mTrailer   = 4 // a blank line and other material follow
	mSpecial   = 8 // NaN, infinities, empty fields, extreme numbers
	mBlankEnd  = 16
	mLongLines = 32
	mBlanks    = 64 // more than one blank line, some of them spaces
)

func isCSV(kind string) bool { return kind == "csv" }

func (op Op) delim() string {
	if op.Delim == "" {
		return ","
	}
	return op.Delim
}

const defValue = -77.25

func numText(r *rt.Rand, special bool) string {
	x := norm(r) * 3
	switch r.Intn(8) {
	case 0:
		return strconv.Itoa(r.Intn(20) - 5)
	case 1:
		return num(x)
	case 2:
		return strconv.FormatFloat(x*1e10, 'e', 3+r.Intn(10), 64)
	case 3:
		return strconv.FormatFloat(x, 'f', 1+r.Intn(5), 64)
	case 4:
		if special {
			return pick(r, "nan", "NaN", "inf", "-inf", "+Inf", "Infinity", "1e-320", "-0", "0.0", "1e308", "0x1p-2")
		}
	case 5:
		if special {
			return pick(r, "-0", "+5", "1e5", "12345678901234567890", "0.1e1", ".5", "5.")
		}
	}
	return strconv.FormatFloat(x, 'g', -1, 64)
}

// matLines is the matrix as lines without terminators.
func matLines(op Op) []string {
	r := rt.NewRand(op.Seed ^ 0x3A7)
	rows := clamp(op.Rows, 1, 70000)
	cols := clamp(op.Extra, 1, 20000)
	sp := op.Flag&mSpecial != 0
	var lines []string
	for i := 0; i < rows; i++ {
		var t []string
		switch op.K {
		case "csv":
			if op.Skip {
				t = append(t, pick(&r, "0", "1", "label", "2.5", "x y", ""))
				if strings.Contains(t[0], op.delim()) || op.delim() == "" {
					t[0] = "1"
				}
			}
			for j := 0; j < cols; j++ {
				s := numText(&r, sp)
				if sp && (cols > 1 || op.Skip) && r.Chance(20) {
					s = ""
				}
				t = append(t, s)
			}
			if !op.Skip && strings.Join(t, "") == "" {
				t[0] = "1"
			}
			lines = append(lines, strings.Join(t, op.delim()))
		default:
			n := cols
			if op.Skip {
				t = append(t, pick(&r, "0", "1", "-1", "3.5", "+1"))
			} else if n < 2 {
				n = 2
			}
			col := 0
			first := len(t)
			for j := 0; j < n; j++ {
				if op.K == "svmcsr" {
					if op.Skip && j > 0 && r.Chance(30) || !op.Skip && j > 1 && r.Chance(30) {
						continue
					}
					col += r.Intn(4)
					if r.Chance(3) {
						col += r.Intn(pick(&r, 300, 100000, 100000, 1<<24, 1<<31))
					}
				}
				t = append(t, strconv.Itoa(col)+":"+numText(&r, sp))
				col++
				if op.K == "svmcsr" && sp && r.Chance(5) {
					col-- // again
				}
			}
			if op.K == "svmcsr" && sp && r.Chance(15) {
				// columns need not ascend
				u := t[first:]
				for a, b := range perm(&r, len(u)) {
					u[a], u[b] = u[b], u[a]
				}
			}
			if sp && r.Chance(10) {
				// some programs pad fields
				k := r.Intn(len(t))
				t[k] += " "
			}
			lines = append(lines, strings.Join(t, " "))
		}
	}
	return lines
}

// matBytes is the whole file.
func matBytes(op Op) []byte {
	nl := "\n"
	if op.Flag&mCRLF != 0 {
		nl = "\r\n"
	}
	s := strings.Join(matLines(op), nl)
	if op.Flag&(mTrailer|mBlankEnd) != 0 {
		s += nl + nl
		rows := false
		if op.Flag&mBlanks != 0 {
			r := rt.NewRand(op.Seed ^ 0xB1A)
			for k := 1 + r.Intn(3); k > 0; k-- {
				s += pick(&r, "", "", " ", "\t") + nl
			}
			rows = r.Chance(50)
		}
		if op.Flag&mTrailer != 0 {
			if rows {
				// the next part looks like this one
				s += strings.Join(matLines(op), nl) + nl
			} else {
				s += "other material " + nl + "1:2 3" + nl
			}
		}
	} else if op.Flag&mNoLast == 0 {
		s += nl
	}
	return []byte(s)
}

// matWant is what the reference parser makes of delivered bytes.
type matWant struct {
	err    string
	rows   int
	cols   int
	vals   []float64
	ptr    []int
	idx    []int
	offset int // bytes consumed
}

// reference parses the rows that data spells. If failAt is true a read error
// follows the last byte of data, else end-of-file.
func reference(kind string, data []byte, failAt bool, limit int, skip bool, delim string) *matWant {
	w := &matWant{ptr: []int{0}}
	rest := string(data)
	for {
		i := strings.IndexByte(rest, '\n')
		line := rest
		if i >= 0 {
			line = rest[:i+1]
		} else if failAt {
			w.err = "the stream fails before the rows are complete"
			return w
		}
		rest = rest[len(line):]
		w.offset += len(line)
		if isCSV(kind) {
			// white space round the line is no data, unless it delimits
			isData := func(c rune) bool { return !unicode.IsSpace(c) || strings.ContainsRune(delim, c) }
			if i := strings.IndexFunc(line, isData); i >= 0 {
				line = line[i : strings.LastIndexFunc(line, isData)+1]
			} else {
				line = ""
			}
		} else {
			line = strings.TrimSpace(line)
		}
		if line == "" {
			return w
		}
		var idx []int
		var vals []float64
		if isCSV(kind) {
			t := strings.Split(line, delim)
			if skip {
				t = t[1:]
			}
			for j, s := range t {
				v := defValue
				if s != "" {
					x, err := strconv.ParseFloat(s, 64)
					if err != nil {
						w.err = "bad number " + s
						return w
					}
					v = x
				}
				idx = append(idx, j)
				vals = append(vals, v)
			}
		} else {
			t := strings.Split(line, " ")
			if len(t) < 2 {
				w.err = "fewer than two fields"
				return w
			}
			if skip {
				t = t[1:]
			}
			for _, s := range t {
				if s == "" {
					continue
				}
				p := strings.Split(s, ":")
				if len(p) != 2 {
					w.err = "bad pair " + s
					return w
				}
				k, err := strconv.ParseUint(p[0], 10, 32)
				x, err2 := strconv.ParseFloat(p[1], 64)
				if err != nil || err2 != nil {
					w.err = "bad pair " + s
					return w
				}
				idx = append(idx, int(k))
				vals = append(vals, x)
			}
		}
		if kind != "svmcsr" {
			for j, k := range idx {
				if j != k {
					w.err = "column out of order"
					return w
				}
			}
			if w.rows == 0 {
				w.cols = len(vals)
			} else if w.cols != len(vals) {
				w.err = "ragged"
				return w
			}
		}
		w.rows++
		w.vals = append(w.vals, vals...)
		w.idx = append(w.idx, idx...)
		w.ptr = append(w.ptr, len(w.vals))
		if limit > 0 && w.rows == limit {
			return w
		}
	}
}

// compareMat judges a loader's result.
func compareMat(what, kind string, got any, err error, w *matWant) {
	consistent(what, got, err)
	if err != nil {
		if w.err == "" {
			fail("refused", "%s: error %v, but the delivered bytes spell %d complete rows", what, err, w.rows)
		}
		return
	}
	if w.err != "" {
		fail("no-error", "%s: no error although %s", what, w.err)
	}
	switch m := got.(type) {
	case *mat.DenseMat:
		if m.Rows != w.rows || m.Rows > 0 && m.Cols != w.cols {
			fail("wrong-shape", "%s: %d x %d, the delivered bytes spell %d x %d", what, m.Rows, m.Cols, w.rows, w.cols)
		}
		sameVals(what, m.Values, w.vals)
	case *mat.CSRMat:
		if m.Rows() != w.rows {
			fail("wrong-shape", "%s: %d rows, the delivered bytes spell %d", what, m.Rows(), w.rows)
		}
		for i, p := range w.ptr {
			if m.RowHeaders[i] != p {
				fail("wrong-row", "%s: row header %d is %d instead of %d", what, i, m.RowHeaders[i], p)
			}
		}
		for i, p := range w.idx {
			if m.ColIndexes[i] != p {
				fail("wrong-row", "%s: column index %d is %d instead of %d", what, i, m.ColIndexes[i], p)
			}
		}
		sameVals(what, m.Values, w.vals)
	}
	countN(cMatRows, w.rows)
}

func sameVals(what string, got, want []float64) {
	if len(got) != len(want) {
		fail("wrong-shape", "%s: %d values instead of %d", what, len(got), len(want))
	}
	for i := range got {
		if !same(got[i], want[i]) {
			fail("wrong-row", "%s: value %d is %v instead of %v", what, i, got[i], want[i])
		}
	}
}

// consistent checks the structural promises.
func consistent(what string, got any, err error) {
	if err != nil {
		if got != nil {
			fail("matrix-with-error", "%s: a matrix is returned together with error %v", what, err)
		}
		return
	}
	switch m := got.(type) {
	case nil:
		fail("nil-matrix", "%s: neither a matrix nor an error", what)
	case *mat.DenseMat:
		if m.Rows < 0 || m.Cols < 0 || len(m.Values) != m.Rows*m.Cols {
			fail("inconsistent", "%s: %d values in a %d x %d matrix", what, len(m.Values), m.Rows, m.Cols)
		}
	case *mat.CSRMat:
		if len(m.RowHeaders) == 0 || m.RowHeaders[0] != 0 || m.RowHeaders[len(m.RowHeaders)-1] != len(m.Values) || len(m.ColIndexes) != len(m.Values) {
			fail("inconsistent", "%s: CSR matrix with row headers %v, %d columns, %d values", what, short(m.RowHeaders), len(m.ColIndexes), len(m.Values))
		}
		for i := 1; i < len(m.RowHeaders); i++ {
			if m.RowHeaders[i] < m.RowHeaders[i-1] {
				fail("inconsistent", "%s: row headers descend at %d", what, i)
			}
		}
		for _, k := range m.ColIndexes {
			if k < 0 {
				fail("inconsistent", "%s: negative column index", what)
			}
		}
	}
}

func short(x []int) []int {
	if len(x) > 20 {
		return x[:20]
	}
	return x
}

// matPrint is an observation of a matrix for comparison.
func matPrint(got any, err error) string {
	if err != nil {
		return "error"
	}
	switch m := got.(type) {
	case *mat.DenseMat:
		return fmt.Sprintf("dense %dx%d %x", m.Rows, m.Cols, hashF(uint64(len(m.Values)), m.Values...))
	case *mat.CSRMat:
		h := hashF(uint64(len(m.Values)), m.Values...)
		for _, x := range m.RowHeaders {
			h = hashF(h, float64(x))
		}
		for _, x := range m.ColIndexes {
			h = hashF(h, float64(x))
		}
		return fmt.Sprintf("csr %d %x", len(m.RowHeaders), h)
	}
	return "nil"
}

func genMat(r *rt.Rand) Op {
	op := Op{K: pick(r, "svmdense", "svmcsr", "csv"), Seed: r.U64() >> 20}
	op.Rows = 1 + r.Intn(12)
	if r.Chance(15) {
		op.Rows = 20 + r.Intn(150)
	}
	op.Extra = 1 + r.Intn(8)
	if r.Chance(8) {
		op.Extra = 50 + r.Intn(300) // lines longer than small buffers
	}
	switch r.Intn(500) {
	case 0: // lines longer than any usual buffer
		op.Rows, op.Extra = 1+r.Intn(3), pick(r, 1500, 4000, 8000, 16000)
	case 1: // many lines
		op.Rows, op.Extra = pick(r, 1100, 5000, 33000, 66000), 1+r.Intn(2)
	}
	op.Skip = r.Chance(60)
	if op.K == "csv" {
		op.Delim = pick(r, ",", ",", ";", "\t", "||", " ", "|")
	}
	if r.Chance(25) {
		op.Flag |= mCRLF
	}
	if r.Chance(30) {
		op.Flag |= mNoLast
	}
	if r.Chance(15) {
		op.Flag |= mTrailer
	}
	if r.Chance(10) {
		op.Flag |= mBlankEnd
	}
	if r.Chance(50) {
		op.Flag |= mBlanks
	}
	if r.Chance(50) {
		op.Flag |= mSpecial
	}
	return op
}

func genMatLimit(r *rt.Rand, rows int) int {
	if r.Chance(5) {
		return hugeInt(r)
	}
	return pick(r, 0, 0, 0, 1, 1+r.Intn(rows), rows, rows+1, max(1, rows-1), -1)
}

var _ = math.Pi
