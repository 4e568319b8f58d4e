// Package model is the reference semantics the checks compare against: RESP
// replies and, in model.go, a sequential Redis restricted to the command
// table of the server.  It is written from the Redis documentation and shares
// no code with the program under test.
package model

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Reply is a parsed RESP value.
type Reply struct {
	T   byte // '+', '-', ':', '$', '*', 'n' (null bulk), 'N' (null array)
	S   string
	I   int64
	Arr []Reply
}

// ParseReply parses exactly one RESP value that must span all of b.
func ParseReply(b []byte) (Reply, error) {
	r, n, err := parse(b)
	if err != nil {
		return r, err
	}
	if n != len(b) {
		return r, fmt.Errorf("%d stray bytes after the reply", len(b)-n)
	}
	return r, nil
}

// ParseReplies parses a concatenation of RESP values.
func ParseReplies(b []byte) ([]Reply, error) {
	var out []Reply
	for len(b) > 0 {
		r, n, err := parse(b)
		if err != nil {
			return out, err
		}
		out = append(out, r)
		b = b[n:]
	}
	return out, nil
}

func line(b []byte) (string, int, error) {
	for i := 0; i+1 < len(b); i++ {
		if b[i] == '\r' && b[i+1] == '\n' {
			return string(b[:i]), i + 2, nil
		}
		if b[i] == '\n' {
			return "", 0, fmt.Errorf("bare LF in a reply line")
		}
	}
	return "", 0, fmt.Errorf("incomplete reply")
}

func parse(b []byte) (Reply, int, error) {
	if len(b) == 0 {
		return Reply{}, 0, fmt.Errorf("empty reply")
	}
	l, n, err := line(b[1:])
	if err != nil {
		return Reply{}, 0, err
	}
	n++
	switch b[0] {
	case '+', '-':
		if strings.ContainsAny(l, "\r\n") {
			return Reply{}, 0, fmt.Errorf("line break inside a simple reply")
		}
		return Reply{T: b[0], S: l}, n, nil
	case ':':
		v, err := strconv.ParseInt(l, 10, 64)
		if err != nil {
			return Reply{}, 0, fmt.Errorf("bad integer reply %q", l)
		}
		return Reply{T: ':', I: v}, n, nil
	case '$':
		v, err := strconv.Atoi(l)
		if err != nil || v < -1 {
			return Reply{}, 0, fmt.Errorf("bad bulk length %q", l)
		}
		if v == -1 {
			return Reply{T: 'n'}, n, nil
		}
		if len(b) < n+v+2 {
			return Reply{}, 0, fmt.Errorf("incomplete reply")
		}
		if b[n+v] != '\r' || b[n+v+1] != '\n' {
			return Reply{}, 0, fmt.Errorf("bulk reply not terminated where its length says")
		}
		return Reply{T: '$', S: string(b[n : n+v])}, n + v + 2, nil
	case '*':
		v, err := strconv.Atoi(l)
		if err != nil || v < -1 {
			return Reply{}, 0, fmt.Errorf("bad array length %q", l)
		}
		if v == -1 {
			return Reply{T: 'N'}, n, nil
		}
		r := Reply{T: '*', Arr: []Reply{}}
		for i := 0; i < v; i++ {
			e, k, err := parse(b[n:])
			if err != nil {
				return r, 0, err
			}
			n += k
			r.Arr = append(r.Arr, e)
		}
		return r, n, nil
	}
	return Reply{}, 0, fmt.Errorf("unknown reply type %q", b[0])
}

func (r Reply) String() string {
	switch r.T {
	case '+':
		return "+" + r.S
	case '-':
		return "error(" + r.S + ")"
	case ':':
		return ":" + strconv.FormatInt(r.I, 10)
	case '$':
		return strconv.Quote(r.S)
	case 'n', 'N':
		return "null"
	case '*':
		s := make([]string, len(r.Arr))
		for i := range r.Arr {
			s[i] = r.Arr[i].String()
		}
		return "[" + strings.Join(s, " ") + "]"
	case 0:
		return "(no reply)"
	}
	return "?"
}

// Canon renders a reply for comparison between two executions: errors are
// all alike, null and empty collections are alike, and with unordered set,
// array elements are sorted.
func (r Reply) Canon(unordered, pairs bool) string {
	switch r.T {
	case '-':
		return "error"
	case 'N':
		return "[]"
	case 'n':
		return "null"
	case '*':
		var s []string
		if pairs && len(r.Arr)%2 == 0 {
			for i := 0; i < len(r.Arr); i += 2 {
				s = append(s, r.Arr[i].Canon(false, false)+"="+r.Arr[i+1].Canon(false, false))
			}
		} else {
			for i := range r.Arr {
				s = append(s, r.Arr[i].Canon(false, false))
			}
		}
		if unordered {
			sort.Strings(s)
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return r.String()
}

// Want is a set of acceptable replies.
type Want struct {
	Kind wantKind
	S    string
	I    int64
	Els  []Elem
	Alt  *Want // also acceptable
	// random picks
	From     []string // allowed elements
	Vals     map[string]string
	N        int  // number of picks
	Distinct bool // picks must be distinct
	Sub      bool
}

type Elem struct {
	Null bool
	Int  bool
	I    int64
	S    string
}

type wantKind int

const (
	WStatus wantKind = iota
	WError
	WInt
	WBulk
	WNull
	WList    // ordered array; empty also matches null
	WSet     // unordered array; empty also matches null
	WPairs   // unordered array of pairs
	WOneOf   // one bulk out of From
	WPicks   // N picks out of From
	WPickVal // N picks with their values
)

func (w Want) Or(o Want) Want { w.Alt = &o; return w }

func (w Want) String() string {
	s := ""
	switch w.Kind {
	case WStatus:
		s = "+" + w.S
	case WError:
		s = "an error"
	case WInt:
		s = ":" + strconv.FormatInt(w.I, 10)
	case WBulk:
		s = strconv.Quote(w.S)
	case WNull:
		s = "null"
	case WList, WSet, WPairs:
		var e []string
		for _, x := range w.Els {
			e = append(e, x.String())
		}
		s = "[" + strings.Join(e, " ") + "]"
		if w.Kind != WList {
			s += " in any order"
		}
	case WOneOf:
		s = fmt.Sprintf("one of %q", w.From)
	case WPicks, WPickVal:
		s = fmt.Sprintf("%d picks from %q", w.N, w.From)
		if w.Distinct {
			s += ", distinct"
		}
		if w.Kind == WPickVal {
			s += ", with their values"
		}
	}
	if w.Alt != nil {
		s += " or " + w.Alt.String()
	}
	return s
}

func (e Elem) String() string {
	if e.Null {
		return "null"
	}
	if e.Int {
		return ":" + strconv.FormatInt(e.I, 10)
	}
	return strconv.Quote(e.S)
}

func (e Elem) match(r Reply) bool {
	if e.Null {
		return r.T == 'n' || r.T == 'N'
	}
	if e.Int {
		return r.T == ':' && r.I == e.I
	}
	return r.T == '$' && r.S == e.S
}

// Match reports whether r is acceptable.
func (w Want) Match(r Reply) bool {
	if w.match1(r) {
		return true
	}
	return w.Alt != nil && w.Alt.Match(r)
}

func (w Want) match1(r Reply) bool {
	null := r.T == 'n' || r.T == 'N'
	switch w.Kind {
	case WStatus:
		return (r.T == '+' || r.T == '$') && r.S == w.S
	case WError:
		return r.T == '-'
	case WInt:
		return r.T == ':' && r.I == w.I
	case WBulk:
		return r.T == '$' && r.S == w.S
	case WNull:
		return null
	case WList:
		if len(w.Els) == 0 && null {
			return true
		}
		if r.T != '*' || len(r.Arr) != len(w.Els) {
			return false
		}
		for i := range w.Els {
			if !w.Els[i].match(r.Arr[i]) {
				return false
			}
		}
		return true
	case WSet:
		if len(w.Els) == 0 && null {
			return true
		}
		if r.T != '*' || len(r.Arr) != len(w.Els) {
			return false
		}
		left := map[string]int{}
		for _, e := range w.Els {
			left[e.S]++
		}
		for _, a := range r.Arr {
			if a.T != '$' || left[a.S] == 0 {
				return false
			}
			left[a.S]--
		}
		return true
	case WPairs:
		if len(w.Els) == 0 && null {
			return true
		}
		if r.T != '*' || len(r.Arr) != len(w.Els) {
			return false
		}
		left := map[string]string{}
		for i := 0; i < len(w.Els); i += 2 {
			left[w.Els[i].S] = w.Els[i+1].S
		}
		for i := 0; i < len(r.Arr); i += 2 {
			a, b := r.Arr[i], r.Arr[i+1]
			v, ok := left[a.S]
			if a.T != '$' || b.T != '$' || !ok || v != b.S {
				return false
			}
			delete(left, a.S)
		}
		return true
	case WOneOf:
		return r.T == '$' && has(w.From, r.S)
	case WPicks, WPickVal:
		if w.N == 0 && null {
			return true
		}
		st := 1
		if w.Kind == WPickVal {
			st = 2
		}
		if r.T != '*' || len(r.Arr) != w.N*st {
			return false
		}
		seen := map[string]bool{}
		for i := 0; i < len(r.Arr); i += st {
			a := r.Arr[i]
			if a.T != '$' || !has(w.From, a.S) {
				return false
			}
			if w.Distinct && seen[a.S] {
				return false
			}
			seen[a.S] = true
			if st == 2 && (r.Arr[i+1].T != '$' || r.Arr[i+1].S != w.Vals[a.S]) {
				return false
			}
		}
		return true
	}
	return false
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
