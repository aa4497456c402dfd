package ref

import (
	"math"
	"strconv"
	"strings"
	"time"
	"unicode"
)

// Arity of the built-in functions; max -1 is unlimited
var Arity = map[string][2]int{
	"range": {2, 3}, "labels": {1, 1}, "type": {1, 1}, "size": {1, 1},
	"left": {2, 2}, "right": {2, 2}, "split": {2, 2}, "trim": {1, 1}, "ltrim": {1, 1}, "rtrim": {1, 1},
	"substring": {2, 3}, "date": {0, 1},
	"toInteger": {1, 1}, "toIntegerOrNull": {1, 1}, "toFloat": {1, 1}, "toFloatOrNull": {1, 1},
}

// Custom functions of the embedding program
var Custom = map[string]func(args []V) (V, St){}

const rangeLimit = 5000

// CallFunc calls a built-in function
func CallFunc(e *Env, name string, args []V) (V, St) {
	if f, ok := Custom[name]; ok {
		return f(args)
	}
	ar, ok := Arity[name]
	if !ok || len(args) < ar[0] || ar[1] >= 0 && len(args) > ar[1] {
		return nil, ERR
	}
	null := false
	for _, a := range args {
		if a == nil {
			null = true
		}
	}
	if null && len(args) == 1 {
		if name == "type" {
			return nil, UNSPEC
		}
		return nil, OK
	}
	switch name {
	case "range":
		var n [3]int
		n[2] = 1
		for i, a := range args {
			k, ok := a.(int)
			if !ok {
				if a == nil {
					return nil, UNSPEC
				}
				return nil, ERR
			}
			n[i] = k
		}
		ret := List{}
		if n[2] == 0 {
			return nil, UNSPEC
		}
		// Count with arbitrary precision
		for i, at := 0, n[0]; ; i++ {
			if n[2] > 0 && at >= n[1] || n[2] < 0 && at <= n[1] {
				break
			}
			if i > rangeLimit {
				return nil, UNSPEC
			}
			ret = append(ret, at)
			next := at + n[2]
			if n[2] > 0 && next < at || n[2] < 0 && next > at {
				break
			}
			at = next
		}
		return ret, OK
	case "labels":
		id, ok := args[0].(NodeID)
		if !ok {
			return nil, ERR
		}
		n := e.G.Nodes[id]
		if n == nil {
			return nil, UNSPEC
		}
		l := List{}
		for _, x := range n.Labels {
			l = append(l, x)
		}
		return l, OK
	case "type":
		switch x := norm(args[0]).(type) {
		case EdgeID:
			ed := e.G.Edges[x]
			if ed == nil {
				return nil, UNSPEC
			}
			return ed.Type, OK
		}
		return nil, ERR
	case "size":
		switch x := args[0].(type) {
		case List:
			return len(x), OK
		case string:
			return len([]rune(x)), OK
		}
		return nil, UNSPEC
	case "left", "right":
		s, ok1 := args[0].(string)
		n, ok2 := args[1].(int)
		if null {
			if args[0] != nil && !ok1 || args[1] != nil && !ok2 {
				return nil, UNSPEC
			}
			return nil, OK
		}
		if !ok1 || !ok2 {
			return nil, ERR
		}
		if n < 0 {
			return nil, UNSPEC
		}
		r := []rune(s)
		if n > len(r) {
			n = len(r)
		}
		if name == "left" {
			return string(r[:n]), OK
		}
		return string(r[len(r)-n:]), OK
	case "substring":
		if null {
			for i, a := range args {
				if a == nil {
					continue
				}
				if i == 0 {
					if _, ok := a.(string); !ok {
						return nil, UNSPEC
					}
				} else if k, ok := a.(int); !ok || k < 0 {
					return nil, UNSPEC
				}
			}
			return nil, OK
		}
		s, ok := args[0].(string)
		if !ok {
			return nil, ERR
		}
		r := []rune(s)
		start, ok := args[1].(int)
		if !ok {
			return nil, ERR
		}
		n := math.MaxInt64
		if len(args) == 3 {
			n, ok = args[2].(int)
			if !ok {
				return nil, ERR
			}
		}
		if start < 0 || n < 0 {
			return nil, UNSPEC
		}
		if start > len(r) {
			return "", OK
		}
		r = r[start:]
		if n < len(r) {
			r = r[:n]
		}
		return string(r), OK
	case "trim", "ltrim", "rtrim":
		s, ok := args[0].(string)
		if !ok {
			return nil, ERR
		}
		r := []rune(s)
		if name != "rtrim" {
			for len(r) > 0 && unicode.IsSpace(r[0]) {
				r = r[1:]
			}
		}
		if name != "ltrim" {
			for len(r) > 0 && unicode.IsSpace(r[len(r)-1]) {
				r = r[:len(r)-1]
			}
		}
		return string(r), OK
	case "split":
		s, ok1 := args[0].(string)
		d, ok2 := args[1].(string)
		if null {
			if args[0] != nil && !ok1 || args[1] != nil && !ok2 {
				return nil, UNSPEC
			}
			return nil, OK
		}
		if !ok1 || !ok2 {
			return nil, ERR
		}
		if d == "" {
			return nil, UNSPEC
		}
		l := List{}
		for {
			i := strings.Index(s, d)
			if i < 0 {
				break
			}
			l = append(l, s[:i])
			s = s[i+len(d):]
		}
		return append(l, s), OK
	case "toInteger", "toIntegerOrNull":
		orNull := name == "toIntegerOrNull"
		switch x := args[0].(type) {
		case int:
			return x, OK
		case float64:
			if math.IsNaN(x) || x >= 9.2e18 || x <= -9.2e18 {
				return nil, UNSPEC
			}
			return int(math.Trunc(x)), OK
		case bool:
			if x {
				return 1, OK
			}
			return 0, OK
		case string:
			v, ok := parseInt(x)
			if ok {
				return v, OK
			}
			if _, err := strconv.ParseFloat(strings.TrimSpace(x), 64); err == nil || strings.ContainsAny(x, "_xXoO+ ") {
				return nil, UNSPEC
			}
			if orNull {
				return nil, OK
			}
			return nil, ERR
		}
		if orNull {
			return nil, OK
		}
		return nil, ERR
	case "toFloat", "toFloatOrNull":
		orNull := name == "toFloatOrNull"
		switch x := args[0].(type) {
		case int:
			return float64(x), OK
		case float64:
			return x, OK
		case string:
			if f, err := strconv.ParseFloat(x, 64); err == nil {
				if math.IsNaN(f) || math.IsInf(f, 0) || strings.ContainsAny(x, "xX_") {
					return nil, UNSPEC
				}
				return f, OK
			}
			if strings.ContainsAny(x, "_ ") || strings.TrimSpace(x) != x {
				return nil, UNSPEC
			}
			if _, err := strconv.ParseFloat(x, 64); err != nil && err.(*strconv.NumError).Err == strconv.ErrRange {
				return nil, UNSPEC
			}
		case bool:
			return nil, UNSPEC
		}
		if orNull {
			return nil, OK
		}
		return nil, ERR
	case "date":
		return dateFunc(args)
	}
	panic(name)
}

// parseInt parses an optional minus sign and decimal digits
func parseInt(s string) (int, bool) {
	t := strings.TrimPrefix(s, "-")
	if t == "" {
		return 0, false
	}
	for _, c := range t {
		if c < '0' || c > '9' {
			return 0, false
		}
	}
	v, err := strconv.ParseInt(s, 10, 64)
	return int(v), err == nil
}

func daysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// ordinal is the number of days since 0000-03-01 in the proleptic
// Gregorian calendar
func ordinal(y, m, d int64) int64 {
	y -= b2i(m <= 2)
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func civil(z int64) (y, m, d int64) {
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	if mp < 10 {
		m = mp + 3
	} else {
		m = mp - 9
	}
	if m <= 2 {
		y++
	}
	return
}

// addDate adds months (keeping the day, overflowing into the next
// month when the day does not exist) and then days
func addDate(dt Date, months, days int64) Date {
	m := int64(dt.Y)*12 + int64(dt.M-1) + months
	y := m / 12
	mo := m % 12
	if mo < 0 {
		mo += 12
		y--
	}
	z := ordinal(y, mo+1, 1) + int64(dt.D-1) + days
	yy, mm, dd := civil(z)
	return Date{int(yy), int(mm), int(dd)}
}

func floorDiv(a, b int64) (int64, int64) {
	q, r := a/b, a%b
	if r < 0 {
		r += b
		q--
	}
	return q, r
}

// addTime adds seconds and nanoseconds and gives the days to carry
func addTime(t Time, s, n int64) (Time, int64) {
	c, nn := floorDiv(int64(t.N)+n, 1000000000)
	total := int64(t.H)*3600 + int64(t.M)*60 + int64(t.S) + s + c
	days, sec := floorDiv(total, 86400)
	return Time{int(sec / 3600), int(sec / 60 % 60), int(sec % 60), int(nn)}, days
}

// temporalArith is arithmetic with durations
func temporalArith(op string, x, y V) (V, St) {
	if d, ok := x.(Dur); ok {
		if op == "+" {
			switch y.(type) {
			case Date, Time, DateTime:
				return temporalArith(op, y, d)
			}
		}
		switch z := y.(type) {
		case Dur:
			switch op {
			case "+":
				return Dur{d.Mo + z.Mo, d.D + z.D, d.S + z.S, d.N + z.N}, OK
			case "-":
				return Dur{d.Mo - z.Mo, d.D - z.D, d.S - z.S, d.N - z.N}, OK
			}
		case int:
			k := int64(z)
			switch op {
			case "*":
				return Dur{d.Mo * k, d.D * k, d.S * k, d.N * k}, OK
			case "/":
				if k == 0 {
					return nil, ERR
				}
				return Dur{d.Mo / k, d.D / k, d.S / k, d.N / k}, OK
			}
		case float64:
			sc := func(a int64) int64 {
				if op == "*" {
					return int64(float64(a) * z)
				}
				return int64(float64(a) / z)
			}
			switch op {
			case "/":
				if z == 0 {
					return nil, ERR
				}
				return Dur{sc(d.Mo), sc(d.D), sc(d.S), sc(d.N)}, OK
			case "*":
				return Dur{sc(d.Mo), sc(d.D), sc(d.S), sc(d.N)}, OK
			}
		}
		return nil, ERR
	}
	if d, ok := y.(Dur); ok {
		switch x.(type) {
		case int, float64:
			if op == "*" {
				return temporalArith(op, d, x)
			}
			return nil, ERR
		}
		sign := int64(1)
		switch op {
		case "+":
		case "-":
			sign = -1
		default:
			return nil, ERR
		}
		switch t := x.(type) {
		case Date:
			return addDate(t, sign*d.Mo, sign*d.D), OK
		case Time:
			r, _ := addTime(t, sign*d.S, sign*d.N)
			return r, OK
		case DateTime:
			r, carry := addTime(t.Time, sign*d.S, sign*d.N)
			return DateTime{addDate(t.Date, sign*d.Mo, sign*d.D+carry), r}, OK
		}
	}
	return nil, ERR
}

func dateFunc(args []V) (V, St) {
	if len(args) == 0 {
		return nil, UNSPEC
	}
	switch x := args[0].(type) {
	case nil:
		return nil, OK
	case Map:
		if _, ok := x["timezone"]; ok {
			return nil, UNSPEC
		}
		y, ok := x["year"]
		if !ok {
			return nil, ERR
		}
		vals := [3]int{0, 1, 1}
		null, bad := false, false
		for i, k := range []string{"year", "month", "day"} {
			v, ok := x[k]
			if !ok {
				continue
			}
			if v == nil {
				null = true
				continue
			}
			n, ok := v.(int)
			if !ok {
				bad = true
				continue
			}
			vals[i] = n
		}
		if bad && null {
			return nil, UNSPEC
		}
		if bad {
			return nil, ERR
		}
		if null {
			return nil, OK
		}
		_ = y
		if vals[1] < 1 || vals[1] > 12 || vals[2] < 1 || vals[2] > daysIn(vals[0], vals[1]) {
			return nil, UNSPEC
		}
		return Date{vals[0], vals[1], vals[2]}, OK
	case string:
		p := strings.Split(x, "-")
		var n []int
		for i, s := range p {
			if i == 0 && len(s) != 4 || i > 0 && (len(s) < 1 || len(s) > 2) || i > 2 {
				if len(p) == 1 && allDigits(s) {
					return nil, UNSPEC // yyyyMMdd and similar
				}
				return nil, ERR
			}
			if !allDigits(s) {
				return nil, ERR
			}
			v, _ := strconv.Atoi(s)
			n = append(n, v)
		}
		for len(n) < 3 {
			n = append(n, 1)
		}
		if n[1] < 1 || n[1] > 12 || n[2] < 1 || n[2] > daysIn(n[0], n[1]) {
			return nil, ERR
		}
		return Date{n[0], n[1], n[2]}, OK
	}
	return nil, ERR
}

func allDigits(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return len(s) > 0
}

var _ = time.UTC
