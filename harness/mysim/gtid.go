package mysim

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// GTID is one transaction.
type GTID struct {
	UUID string
	N    int64
}

func (g GTID) String() string { return fmt.Sprintf("%s:%d", g.UUID, g.N) }

type iv struct{ lo, hi int64 }

// Set is a GTID set with MySQL's semantics.
type Set map[string][]iv

// NewSet makes a set from GTIDs.
func NewSet(gs ...GTID) Set {
	s := Set{}
	for _, g := range gs {
		s.Add(g)
	}
	return s
}

// ParseSet parses MySQL's text form.
func ParseSet(t string) (Set, error) {
	s := Set{}
	for _, part := range strings.Split(t, ",") {
		part = strings.TrimSpace(part)
		if part == "" {
			continue
		}
		f := strings.Split(part, ":")
		u := strings.ToLower(strings.TrimSpace(f[0]))
		if len(u) != 36 || len(f) < 2 {
			return nil, fmt.Errorf("malformed GTID set specification '%s'", t)
		}
		for _, x := range f[1:] {
			x = strings.TrimSpace(x)
			a, b, ok := strings.Cut(x, "-")
			lo, err := strconv.ParseInt(a, 10, 64)
			if err != nil || lo < 1 {
				return nil, fmt.Errorf("malformed GTID set specification '%s'", t)
			}
			hi := lo
			if ok {
				hi, err = strconv.ParseInt(b, 10, 64)
				if err != nil {
					return nil, fmt.Errorf("malformed GTID set specification '%s'", t)
				}
			}
			s.addIv(u, iv{lo, hi})
		}
	}
	return s, nil
}

// MustSet parses or panics.
func MustSet(t string) Set {
	s, err := ParseSet(t)
	if err != nil {
		panic(err)
	}
	return s
}

func (s Set) addIv(u string, n iv) {
	if n.hi < n.lo {
		return
	}
	l := append(s[u], n)
	sort.Slice(l, func(i, j int) bool { return l[i].lo < l[j].lo })
	out := l[:1:1]
	for _, x := range l[1:] {
		last := &out[len(out)-1]
		if x.lo <= last.hi+1 {
			if x.hi > last.hi {
				last.hi = x.hi
			}
			continue
		}
		out = append(out, x)
	}
	s[u] = out
}

// Add adds one GTID.
func (s Set) Add(g GTID) {
	l := s[g.UUID]
	if n := len(l); n > 0 {
		last := &l[n-1]
		if g.N == last.hi+1 {
			last.hi++
			return
		}
		if g.N >= last.lo && g.N <= last.hi {
			return
		}
	}
	s.addIv(g.UUID, iv{g.N, g.N})
}

// Has tells membership.
func (s Set) Has(g GTID) bool {
	for _, x := range s[g.UUID] {
		if g.N >= x.lo && g.N <= x.hi {
			return true
		}
	}
	return false
}

// Clone copies.
func (s Set) Clone() Set {
	r := Set{}
	for u, l := range s {
		r[u] = append([]iv(nil), l...)
	}
	return r
}

// Union returns s ∪ t.
func (s Set) Union(t Set) Set {
	r := s.Clone()
	for u, l := range t {
		for _, x := range l {
			r.addIv(u, x)
		}
	}
	return r
}

// Minus returns s − t.
func (s Set) Minus(t Set) Set {
	r := Set{}
	for u, l := range s {
		cur := append([]iv(nil), l...)
		for _, c := range t[u] {
			var next []iv
			for _, x := range cur {
				if c.hi < x.lo || c.lo > x.hi {
					next = append(next, x)
					continue
				}
				if x.lo < c.lo {
					next = append(next, iv{x.lo, c.lo - 1})
				}
				if x.hi > c.hi {
					next = append(next, iv{c.hi + 1, x.hi})
				}
			}
			cur = next
		}
		if len(cur) > 0 {
			r[u] = cur
		}
	}
	return r
}

// Empty tells emptiness.
func (s Set) Empty() bool {
	for _, l := range s {
		if len(l) > 0 {
			return false
		}
	}
	return true
}

// Subset tells whether s ⊆ t.
func (s Set) Subset(t Set) bool { return s.Minus(t).Empty() }

// UUIDs lists the sources, sorted.
func (s Set) UUIDs() []string {
	var us []string
	for u, l := range s {
		if len(l) > 0 {
			us = append(us, u)
		}
	}
	sort.Strings(us)
	return us
}

// Count is the number of GTIDs.
func (s Set) Count() int64 {
	var n int64
	for _, l := range s {
		for _, x := range l {
			n += x.hi - x.lo + 1
		}
	}
	return n
}

// String is MySQL's text form (entries separated by a comma and a newline).
func (s Set) String() string {
	var b strings.Builder
	for i, u := range s.UUIDs() {
		if i > 0 {
			b.WriteString(",\n")
		}
		b.WriteString(u)
		for _, x := range s[u] {
			if x.lo == x.hi {
				fmt.Fprintf(&b, ":%d", x.lo)
			} else {
				fmt.Fprintf(&b, ":%d-%d", x.lo, x.hi)
			}
		}
	}
	return b.String()
}
