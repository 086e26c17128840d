package main

import (
	"bytes"
	"encoding/binary"
	"strconv"

	"zsim/rt"
)

// Damage to stored bytes. Positions and amounts are taken modulo what is there.

var wordValues = []uint32{0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x7f800000, 0x7fc00000, 0xff800000, 100, 0x10000, 0x1000000, 255, 0x00ffffff, 3, 16}
var textValues = []string{"0", "-1", "1", "2", "7", "1000", "1000000", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807",
	"9223372036854775808", "18446744073709551615", "1e400", "nan", "inf", "-inf", "", "-", "0x10", "abc", "1 2", "1.5", "-0", "00", "1e9", "99999999999999999999999"}

func genDamage(r *rt.Rand) []Mut {
	n := 1
	if r.Chance(35) {
		n = 2 + r.Intn(2)
	}
	var ms []Mut
	for i := 0; i < n; i++ {
		k := pick(r, "flip", "set", "word", "word", "word", "dup", "del", "swap", "num", "num", "num", "num", "copy", "line", "dline", "key", "zero")
		if r.Chance(4) {
			k = "chain"
		} else if r.Chance(5) {
			k = "elem"
		}
		ms = append(ms, Mut{K: k, A: int(r.U64() >> 34), B: int(r.U64() >> 34), C: int(r.U64() >> 34)})
	}
	return ms
}

type tok struct{ a, b int }

// numbers finds decimal number tokens.
func numbers(d []byte) []tok {
	var ts []tok
	for i := 0; i < len(d); {
		c := d[i]
		if c >= '0' && c <= '9' || c == '-' && i+1 < len(d) && d[i+1] >= '0' && d[i+1] <= '9' {
			j := i + 1
			for j < len(d) && (d[j] >= '0' && d[j] <= '9' || d[j] == '.' || d[j] == 'e') {
				j++
			}
			ts = append(ts, tok{i, j})
			i = j
			continue
		}
		i++
	}
	return ts
}

func linesOf(d []byte) []tok {
	var ts []tok
	a := 0
	for i, c := range d {
		if c == '\n' {
			ts = append(ts, tok{a, i + 1})
			a = i + 1
		}
	}
	if a < len(d) {
		ts = append(ts, tok{a, len(d)})
	}
	return ts
}

func splice(d []byte, a, b int, with []byte) []byte {
	out := make([]byte, 0, len(d)+len(with))
	out = append(out, d[:a]...)
	out = append(out, with...)
	return append(out, d[b:]...)
}

func damage(data []byte, ms []Mut) []byte {
	d := append([]byte{}, data...)
	for _, m := range ms {
		n := len(d)
		if n == 0 {
			return d
		}
		// half of the positions in the first part of the file, where headers are
		p := m.A % n
		if m.C%2 == 0 && n > 400 {
			p = m.A % 400
		}
		count(cDamage)
		switch m.K {
		case "flip":
			d[p] ^= 1 << uint(m.B%8)
		case "set":
			d[p] = byte(m.B)
		case "zero":
			for i := 0; i < 1+m.B%16 && p+i < n; i++ {
				d[p+i] = 0
			}
		case "word":
			v := wordValues[m.B%len(wordValues)]
			if m.C%3 == 0 {
				p &^= 3
			}
			for i := 0; i < 4 && p+i < n; i++ {
				d[p+i] = byte(v >> uint(8*i))
			}
		case "dup":
			l := 1 + m.B%40
			if m.C%5 < 2 { // whole elements
				l = []int{4, 8, 8, 16, 20, 56}[m.B%6]
			}
			if p+l > n {
				l = n - p
			}
			d = splice(d, p, p, d[p:p+l])
		case "del":
			l := 1 + m.B%40
			if m.C%5 < 2 { // whole elements
				l = []int{4, 8, 8, 16, 20, 56}[m.B%6]
			}
			if p+l > n {
				l = n - p
			}
			d = splice(d, p, p+l, nil)
		case "swap":
			q := m.B % n
			d[p], d[q] = d[q], d[p]
		case "copy":
			q := m.B % n
			l := 1 + m.C%24
			for i := 0; i < l && p+i < n && q+i < n; i++ {
				d[p+i] = d[q+i]
			}
		case "num":
			ts := numbers(d)
			if len(ts) == 0 {
				continue
			}
			t := ts[m.A%len(ts)]
			if m.C%2 == 0 && len(ts) > 60 {
				t = ts[m.A%60]
			}
			var v string
			switch m.B % 4 {
			case 0, 1:
				v = textValues[(m.B/4)%len(textValues)]
			case 2:
				o := ts[(m.B/4)%len(ts)]
				v = string(d[o.a:o.b])
			default:
				x, err := strconv.Atoi(string(d[t.a:t.b]))
				if err != nil {
					v = "3"
				} else {
					v = itoa(x + []int{1, -1, 2, -2, 16, -16}[(m.B/4)%6])
				}
			}
			d = splice(d, t.a, t.b, []byte(v))
		case "line", "dline":
			ts := linesOf(d)
			t := ts[m.A%len(ts)]
			if m.K == "dline" {
				d = splice(d, t.a, t.b, nil)
			} else {
				o := ts[m.B%len(ts)]
				d = splice(d, o.a, o.a, append([]byte{}, d[t.a:t.b]...))
			}
		case "chain":
			d = chain(d, m)
		case "elem":
			d = element(d, m)
		case "key":
			// rename or retype: replace a letter
			for i := 0; i < n; i++ {
				q := (p + i) % n
				if c := d[q]; c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
					d[q] = "abcdeNsFLIVgptRS(."[m.B%18]
					break
				}
			}
		}
		if len(d) > len(data)*3+4096 {
			break
		}
	}
	return d
}

// chain rewrites the child pointers of one tree so that inner nodes are shared:
// both children of an inner node are the same, or the next inner node.
func chain(d []byte, m Mut) []byte {
	if bytes.Contains(d, []byte("left_child=")) {
		return chainText(d, m)
	}
	if bytes.Contains(d, []byte("_codecs\nencode\n")) {
		return chainPickle(d, m)
	}
	// XGBoost: parent, left, right, ...
	var found []recs
	for p := 0; p+60 < len(d); p++ {
		if binary.LittleEndian.Uint32(d[p:]) != 0xffffffff {
			continue
		}
		f := recs{p, 20, 4, 4, 0}
		f.find(d)
		if f.n >= 3 {
			found = append(found, f)
			p += f.n*f.size - 1
		}
	}
	if len(found) > 0 {
		found[m.A%len(found)].share(d, m)
	}
	return d
}

// recs is a table of n nodes with two child indexes each.
type recs struct{ at, size, left, width, n int }

// find counts the nodes that look right.
func (f *recs) find(d []byte) {
	for q := f.at; q+f.size <= len(d); q += f.size {
		l, r := word(d[q+f.left:], f.width), word(d[q+f.left+f.width:], f.width)
		if l != -1 && (l <= f.n || l > 1<<20) || r != -1 && (r <= f.n || r > 1<<20) || f.n == 0 && l < 0 {
			break
		}
		f.n++
	}
}

func (f *recs) share(d []byte, m Mut) {
	next := -1
	for i := f.n - 1; i >= 0; i-- {
		q := d[f.at+i*f.size+f.left:]
		if word(q, f.width) < 0 {
			continue
		}
		switch m.B % 3 {
		case 0:
			copy(q[:f.width], q[f.width:2*f.width])
		case 1:
			copy(q[f.width:2*f.width], q[:f.width])
		default:
			if next >= 0 {
				q[0], q[1], q[2], q[3] = byte(next), byte(next>>8), byte(next>>16), 0
				copy(q[f.width:2*f.width], q[:f.width])
			}
		}
		next = i
	}
}

// chainPickle looks for node tables (56 bytes a node) among the escaped byte strings.
func chainPickle(d []byte, m Mut) []byte {
	type table struct {
		at  tok
		raw []byte
		f   recs
	}
	var found []table
	for _, t := range linesOf(d) {
		if d[t.a] == '(' {
			t.a++
		}
		if t.b-t.a < 3*56 || d[t.a] != 'V' {
			continue
		}
		x := table{at: tok{t.a + 1, t.b - 1}, f: recs{0, 56, 0, 8, 0}}
		x.raw = unescape(d[x.at.a:x.at.b])
		x.f.find(x.raw)
		if x.f.n >= 3 && len(x.raw)%56 == 0 {
			found = append(found, x)
		}
	}
	if len(found) == 0 {
		return d
	}
	x := found[m.A%len(found)]
	x.f.share(x.raw, m)
	return splice(d, x.at.a, x.at.b, escape(x.raw))
}

// unescape gives the bytes that a string of a pickle of protocol 0 stands for.
func unescape(d []byte) []byte {
	var raw []byte
	for i := 0; i < len(d); i++ {
		if d[i] == '\\' && i+6 <= len(d) && d[i+1] == 'u' {
			if v, err := strconv.ParseUint(string(d[i+2:i+6]), 16, 8); err == nil {
				raw = append(raw, byte(v))
				i += 5
				continue
			}
		}
		raw = append(raw, d[i])
	}
	return raw
}

func escape(raw []byte) []byte {
	var out []byte
	for _, c := range raw {
		switch c {
		case '\\', '\n', 0, '\r', 0x1a:
			out = append(out, "\\u00"...)
			out = append(out, "0123456789abcdef"[c>>4], "0123456789abcdef"[c&15])
		default:
			out = append(out, c)
		}
	}
	return out
}

// element drops or doubles one element of an array.
func element(d []byte, m Mut) []byte {
	type array struct {
		at    tok
		parts [][]byte
	}
	pick := bytes.Contains(d, []byte("_codecs\nencode\n"))
	var found []array
	for _, t := range linesOf(d) {
		if pick {
			if d[t.a] == '(' {
				t.a++
			}
			if t.b-t.a < 10 || d[t.a] != 'V' {
				continue
			}
			raw := unescape(d[t.a+1 : t.b-1])
			size := 8
			if len(raw)%56 == 0 && m.C%2 == 0 {
				size = 56
			}
			if len(raw)%8 != 0 || bytes.IndexByte(raw, ' ') >= 0 || isWord(raw) {
				continue
			}
			x := array{at: tok{t.a + 1, t.b - 1}}
			for i := 0; i < len(raw); i += size {
				x.parts = append(x.parts, escape(raw[i:i+size]))
			}
			found = append(found, x)
			continue
		}
		i := bytes.IndexByte(d[t.a:t.b], '=')
		if i < 0 || d[t.b-1] != '\n' {
			continue
		}
		x := array{at: tok{t.a + i + 1, t.b - 1}}
		for k, w := range bytes.Split(d[x.at.a:x.at.b], []byte(" ")) {
			if k > 0 {
				w = append([]byte(" "), w...)
			}
			x.parts = append(x.parts, w)
		}
		found = append(found, x)
	}
	if len(found) == 0 {
		return d
	}
	x := found[m.A%len(found)]
	i := m.B % len(x.parts)
	var out []byte
	for k, w := range x.parts {
		if k != i || m.C%3 > 0 {
			out = append(out, w...)
		}
		if k == i && m.C%3 == 2 {
			out = append(out, w...)
		}
	}
	if m.C%3 == 1 { // all from here on
		out = bytes.Join(x.parts[:i], nil)
	}
	return splice(d, x.at.a, x.at.b, out)
}

// isWord tells names from data.
func isWord(b []byte) bool {
	for _, c := range b {
		if (c < 'a' || c > 'z') && c != '_' {
			return false
		}
	}
	return true
}

// word is a signed little-endian integer of 4 or 8 bytes.
func word(d []byte, width int) int {
	if width == 8 {
		return int(int64(binary.LittleEndian.Uint64(d)))
	}
	return int(int32(binary.LittleEndian.Uint32(d)))
}

func chainText(d []byte, m Mut) []byte {
	ts := linesOf(d)
	var at []int
	for i, t := range ts {
		if bytes.HasPrefix(d[t.a:t.b], []byte("left_child=")) {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return d
	}
	i := at[m.A%len(at)]
	j := i
	for j < len(ts) && !bytes.HasPrefix(d[ts[j].a:ts[j].b], []byte("right_child=")) {
		j++
	}
	if j == len(ts) {
		return d
	}
	left := append([]byte{}, d[ts[i].a+len("left_child="):ts[i].b]...)
	right := append([]byte{}, d[ts[j].a+len("right_child="):ts[j].b]...)
	switch m.B % 3 {
	case 0:
		left = right
	case 1:
		right = left
	default:
		left = left[:0]
		for k, n := 1, len(numbers(right)); k <= n; k++ {
			v := k
			if k == n {
				v = -1
			}
			left = append(left, itoa(v)...)
			left = append(left, " \n"[map[bool]int{true: 1}[k == n]])
		}
		right = left
	}
	d = splice(d, ts[j].a+len("right_child="), ts[j].b, right)
	return splice(d, ts[i].a+len("left_child="), ts[i].b, left)
}
