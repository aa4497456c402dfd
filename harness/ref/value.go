// Package ref is an independent, deliberately simple reference
// interpreter for the part of openCypher that is checked. It shares no
// code with the implementation under test.
package ref

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// V is a model value: nil, int, float64, bool, string, List, Map,
// NodeID, EdgeRef, PathRef, or one of the temporal types
type V interface{}

type List []V
type Map map[string]V

// NodeID identifies a node of the model graph
type NodeID int

// EdgeID identifies a relationship of the model graph
type EdgeID int

// PathV is the value of a variable length relationship: the
// relationships in the order they are walked
type PathV []EdgeID

// Temporal values
type Date struct{ Y, M, D int }
type Time struct{ H, M, S, N int }
type DateTime struct {
	Date
	Time
}
type Dur struct{ Mo, D, S, N int64 }

// Key is a canonical text for a value; two values have the same key iff
// they are identical (including int vs float)
func Key(v V) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case int:
		return "i" + strconv.Itoa(x)
	case float64:
		if x == 0 {
			x = 0
		}
		if math.IsNaN(x) {
			return "fNaN"
		}
		return "f" + strconv.FormatFloat(x, 'g', -1, 64)
	case bool:
		return strconv.FormatBool(x)
	case string:
		return strconv.Quote(x)
	case List:
		b := strings.Builder{}
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(Key(e))
		}
		b.WriteByte(']')
		return b.String()
	case Map:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b := strings.Builder{}
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(k))
			b.WriteByte(':')
			b.WriteString(Key(x[k]))
		}
		b.WriteByte('}')
		return b.String()
	case NodeID:
		return fmt.Sprintf("n%d", int(x))
	case EdgeID:
		return fmt.Sprintf("e%d", int(x))
	case PathV:
		if len(x) == 1 {
			return fmt.Sprintf("e%d", int(x[0]))
		}
		s := "p"
		for _, e := range x {
			s += fmt.Sprintf("_%d", int(e))
		}
		return s
	case Date:
		return fmt.Sprintf("D%d-%d-%d", x.Y, x.M, x.D)
	case Time:
		return fmt.Sprintf("T%d:%d:%d.%d", x.H, x.M, x.S, x.N)
	case DateTime:
		return fmt.Sprintf("DT%d-%d-%dT%d:%d:%d.%d", x.Y, x.Date.M, x.D, x.H, x.Time.M, x.S, x.N)
	case Dur:
		return fmt.Sprintf("P%d,%d,%d,%d", x.Mo, x.D, x.S, x.N)
	case Raw:
		return "raw:" + string(x)
	}
	panic(fmt.Sprintf("unknown value %T", v))
}

// Raw is an opaque value observed in the implementation that has no
// model counterpart
type Raw string

// Compare compares two non-null values of comparable kinds
func Compare(a, b V) (int, bool) {
	switch x := a.(type) {
	case int:
		switch y := b.(type) {
		case int:
			return cmpInt(x, y), true
		case float64:
			return cmpIntFloat(x, y)
		}
	case float64:
		switch y := b.(type) {
		case int:
			c, ok := cmpIntFloat(y, x)
			return -c, ok
		case float64:
			if math.IsNaN(x) || math.IsNaN(y) {
				return 0, false
			}
			switch {
			case x < y:
				return -1, true
			case x > y:
				return 1, true
			}
			return 0, true
		}
	case bool:
		if y, ok := b.(bool); ok {
			i, j := 0, 0
			if x {
				i = 1
			}
			if y {
				j = 1
			}
			return cmpInt(i, j), true
		}
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y), true
		}
	case Date:
		if y, ok := b.(Date); ok {
			return cmpSeq([]int64{int64(x.Y), int64(x.M), int64(x.D)}, []int64{int64(y.Y), int64(y.M), int64(y.D)}), true
		}
	case Time:
		if y, ok := b.(Time); ok {
			return cmpSeq([]int64{int64(x.H), int64(x.M), int64(x.S), int64(x.N)}, []int64{int64(y.H), int64(y.M), int64(y.S), int64(y.N)}), true
		}
	case DateTime:
		if y, ok := b.(DateTime); ok {
			if c, _ := Compare(x.Date, y.Date); c != 0 {
				return c, true
			}
			return Compare(x.Time, y.Time)
		}
	case Dur:
		if y, ok := b.(Dur); ok {
			return cmpSeq([]int64{x.Mo, x.D, x.S, x.N}, []int64{y.Mo, y.D, y.S, y.N}), true
		}
	}
	return 0, false
}

func cmpSeq(a, b []int64) int {
	for i := range a {
		if a[i] < b[i] {
			return -1
		}
		if a[i] > b[i] {
			return 1
		}
	}
	return 0
}

func cmpInt(a, b int) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

// cmpIntFloat compares exactly
func cmpIntFloat(i int, f float64) (int, bool) {
	if math.IsNaN(f) {
		return 0, false
	}
	if f >= 9223372036854775808.0 {
		return -1, true
	}
	if f < -9223372036854775808.0 {
		return 1, true
	}
	fl := math.Floor(f)
	g := int(fl)
	if i < g {
		return -1, true
	}
	if i > g {
		return 1, true
	}
	if f > fl {
		return -1, true
	}
	return 0, true
}

// Same decides whether two values are the same for DISTINCT and UNION
func Same(a, b V) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if c, ok := Compare(a, b); ok {
		return c == 0
	}
	switch x := a.(type) {
	case List:
		y, ok := b.(List)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Same(x[i], y[i]) {
				return false
			}
		}
		return true
	case Map:
		y, ok := b.(Map)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, e := range x {
			f, ok := y[k]
			if !ok || !Same(e, f) {
				return false
			}
		}
		return true
	case NodeID, EdgeID, PathV:
		return Key(a) == Key(b)
	}
	return false
}
