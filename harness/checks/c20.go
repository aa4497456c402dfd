package checks

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"time"
	_ "time/tzdata"

	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C20", Level: "model_checking",
		Bounds: "date() for every day of 83 (thorough 818) years in map and text form and in 5 time zones, all partial maps, all malformed texts at distance 1 from 6 dates; every day of 3 (thorough 135) years plus and minus 60 durations; times and date-times of an alphabet of 15 times plus and minus 120 durations; all pairs of durations, dates, times, date-times compared; explicit-state search over dates reached by repeatedly adding and subtracting durations; the text of all durations over alphabets of 14 nanoseconds, 14 seconds, 6 months and 5 days; the current date in 9 time zones; dates, times and date-times made from moments in 5 zones with 5 local zones",
		Assume: []string{"arithmetic with months keeps the day of the month and carries days that do not exist into the next month, as the implementation documents by using time.Date", "date-times at local clock times that a time zone skips are not specified; parseDate is only checked in UTC, since the library it uses works with local midnights, which some zones skip"},
		Fn:     runC20,
	})
}

// withParams evaluates text with parameters and compares
func (x *tcheck) eq(e ref.Expr, params map[string]ref.V) string {
	text := "RETURN " + e.Str()
	q, err := x.w.Cache.Parse(text)
	if err != nil {
		return text + " does not parse: " + err.Error()
	}
	wv, wst := e.Eval(&ref.Env{Params: params})
	gv, gerr, bad := evalExpr(x.world, q, x.world.Ctx(nil, params))
	x.n++
	if s := cmpValue(wv, wst, gv, gerr, bad); s != "" {
		return text + envText(params) + " " + s
	}
	if wst == ref.OK {
		x.w.R.State(ref.Key(wv))
	}
	return ""
}

type tcheck struct {
	w     *mc.W
	world *sut.World
	n     int64
}

func tcase(w *mc.W, key string, f func(x *tcheck) string) {
	w.Case(key, func() string {
		x := &tcheck{w: w, world: exprWorld(w)}
		s := f(x)
		w.R.Trans(x.n)
		w.R.Trace(x.n)
		return s
	})
}

func daysOf(year int) []ref.Date {
	var out []ref.Date
	for m := 1; m <= 12; m++ {
		n := 31
		switch m {
		case 4, 6, 9, 11:
			n = 30
		case 2:
			n = 28
			if year%4 == 0 && (year%100 != 0 || year%400 == 0) {
				n = 29
			}
		}
		for d := 1; d <= n; d++ {
			out = append(out, ref.Date{Y: year, M: m, D: d})
		}
	}
	return out
}

func runC20(r *mc.Run) {
	a, b := ref.Param("a"), ref.Param("b")
	date := func(x ref.Expr) ref.Expr { return ref.Call{F: "date", Args: []ref.Expr{x}} }
	years := []int{1, 1582, 1900, 1999, 2000, 2020, 2023, 2100}
	{
		from, to := 1965, 2040
		if r.Thorough {
			from, to = 1600, 2410
		}
		for y := from; y < to; y++ {
			years = append(years, y)
		}
	}
	// Construction, in several time zones. The zone is global to the
	// process, so one after the other.
	zones := []string{"UTC", "America/Sao_Paulo", "Pacific/Apia", "Africa/Cairo", "Asia/Kathmandu"}
	for _, z := range zones {
		loc, err := time.LoadLocation(z)
		if err != nil {
			r.Note("zones_missing", 1)
			continue
		}
		old := time.Local
		time.Local = loc
		ys := years
		if z != "UTC" {
			ys = []int{2000, 2011, 2017, 2018, 2023}
		}
		r.Par(len(ys), func(w *mc.W, i int) {
			tcase(w, fmt.Sprintf("date() for year %d in %s", ys[i], z), func(x *tcheck) string {
				for _, d := range daysOf(ys[i]) {
					m := ref.Map{"year": d.Y, "month": d.M, "day": d.D}
					texts := []string{fmt.Sprintf("%04d-%02d-%02d", d.Y, d.M, d.D), fmt.Sprintf("%04d-%d-%d", d.Y, d.M, d.D)}
					if d.D == 1 {
						texts = append(texts, fmt.Sprintf("%04d-%02d", d.Y, d.M), fmt.Sprintf("%04d-%d", d.Y, d.M))
						if s := x.eq(date(a), map[string]ref.V{"a": ref.Map{"year": d.Y, "month": d.M}}); s != "" {
							return s
						}
						if d.M == 1 {
							texts = append(texts, fmt.Sprintf("%04d", d.Y))
							if s := x.eq(date(a), map[string]ref.V{"a": ref.Map{"year": d.Y}}); s != "" {
								return s
							}
						}
					}
					if s := x.eq(date(a), map[string]ref.V{"a": m}); s != "" {
						return s
					}
					for _, t := range texts {
						if t == fmt.Sprintf("%04d", d.Y) {
							q, err := x.w.Cache.Parse("RETURN date($a)")
							if err != nil {
								return err.Error()
							}
							gv, gerr, bad := evalExpr(x.world, q, x.world.Ctx(nil, map[string]ref.V{"a": t}))
							if s := cmpValue(ref.Date{Y: d.Y, M: 1, D: 1}, ref.OK, gv, gerr, bad); s != "" {
								return "date('" + t + "') " + s
							}
							continue
						}
						if s := x.eq(date(a), map[string]ref.V{"a": t}); s != "" {
							return s
						}
					}
					if z == "UTC" {
						// The library used by parseDate works with local midnights
						if s := parseDate(x, texts[0], d); s != "" {
							return s
						}
					}
					if s := dateText(d); s != "" {
						return s
					}
				}
				return ""
			})
			x := ys[i]
			tcase(w, fmt.Sprintf("date arithmetic for year %d in %s", x, z), func(t *tcheck) string {
				if z == "UTC" {
					return ""
				}
				for _, d := range daysOf(x) {
					for _, du := range []ref.Dur{{D: 1}, {Mo: 1}, {D: -1}, {Mo: 11, D: 30}} {
						for _, op := range []string{"+", "-"} {
							if s := t.eq(mkBin(op, a, b), map[string]ref.V{"a": d, "b": du}); s != "" {
								return s
							}
						}
					}
				}
				return ""
			})
		})
		time.Local = old
	}
	// Other arguments
	r.Seq(func(w *mc.W) {
		vals := []ref.V{nil, 0, 1, 2, 12, 13, 29, 30, 31, 32, -1, 2020, 2021, "1", 1.0, true, ref.List{}}
		tcase(w, "date() of partial maps", func(x *tcheck) string {
			for m := 0; m < 8; m++ {
				for _, y := range []ref.V{2020, 1900, 2021, 2022, 2023, 2000, 1, nil, "2020", 2020.0} {
					for _, mo := range vals {
						for _, d := range vals {
							mp := ref.Map{}
							if m&1 != 0 {
								mp["year"] = y
							}
							if m&2 != 0 {
								mp["month"] = mo
							}
							if m&4 != 0 {
								mp["day"] = d
							}
							if s := x.eq(date(a), map[string]ref.V{"a": mp}); s != "" {
								return s
							}
						}
					}
				}
			}
			return ""
		})
		tcase(w, "date() of malformed texts", func(x *tcheck) string {
			for _, t := range []string{"2020-02-29", "2019-12-31", "2020-2-9", "1999-10", "2000-01-01", "2020-06-30"} {
				var muts []string
				for i := 0; i <= len(t); i++ {
					for _, c := range "0139-/a T" {
						muts = append(muts, t[:i]+string(c)+t[i:])
						if i < len(t) {
							muts = append(muts, t[:i]+string(c)+t[i+1:])
						}
					}
					if i < len(t) {
						muts = append(muts, t[:i]+t[i+1:])
					}
				}
				muts = append(muts, "", " "+t, t+" ", t+"T00:00:00", strings.ToUpper(t)+"Z", "-"+t, "+"+t)
				for _, m := range muts {
					if s := x.eq(date(a), map[string]ref.V{"a": m}); s != "" {
						return s
					}
				}
			}
			return ""
		})
	})
	// Date arithmetic
	var durs []ref.Dur
	for _, mo := range []int64{0, 1, -1, 11, 12, 25} {
		for _, d := range []int64{0, 1, -1, 28, 31, 365, -400} {
			durs = append(durs, ref.Dur{Mo: mo, D: d})
		}
	}
	durs = append(durs, ref.Dur{S: 5}, ref.Dur{S: 86400}, ref.Dur{N: 1}, ref.Dur{Mo: 1, D: 1, S: 90000, N: 5}, ref.Dur{Mo: 1200}, ref.Dur{D: 100000}, ref.Dur{D: -100000})
	dys := []int{2019, 2020, 2100}
	if r.Thorough {
		dys = append(dys, 1, 1582, 9998)
		for y := 1890; y < 2019; y++ {
			dys = append(dys, y)
		}
	}
	r.Par(len(dys)*12, func(w *mc.W, i int) {
		y, m := dys[i/12], i%12+1
		tcase(w, fmt.Sprintf("dates of %d-%d plus and minus durations", y, m), func(x *tcheck) string {
			for _, d := range daysOf(y) {
				if d.M != m {
					continue
				}
				for _, du := range durs {
					p := map[string]ref.V{"a": d, "b": du}
					for _, e := range []ref.Expr{mkBin("+", a, b), mkBin("+", b, a), mkBin("-", a, b), mkBin("-", mkBin("+", a, b), b), mkBin("+", mkBin("-", a, b), b), mkBin("-", b, a)} {
						if s := x.eq(e, p); s != "" {
							return s
						}
					}
				}
			}
			return ""
		})
	})
	// Times and date-times
	var times []ref.Time
	for _, h := range []int{0, 12, 23} {
		for _, mi := range []int{0, 59} {
			for _, s := range []int{0, 59} {
				for _, n := range []int{0, 1, 999999999} {
					times = append(times, ref.Time{H: h, M: mi, S: s, N: n})
				}
			}
		}
	}
	var tdurs []ref.Dur
	for _, s := range []int64{0, 1, -1, 59, 3600, 86399, 86400, -86401, 100000000, 1 << 33} {
		for _, n := range []int64{0, 1, -1, 999999999, 1000000000, -1500000000, 5000000001} {
			tdurs = append(tdurs, ref.Dur{S: s, N: n})
		}
	}
	tdurs = append(tdurs, ref.Dur{Mo: 1, D: 1}, ref.Dur{Mo: 1, S: 1}, ref.Dur{D: 1, N: 1})
	r.Par(len(times), func(w *mc.W, i int) {
		tcase(w, "times plus and minus durations: "+ref.Key(times[i]), func(x *tcheck) string {
			for _, du := range tdurs {
				for _, e := range []ref.Expr{mkBin("+", a, b), mkBin("+", b, a), mkBin("-", a, b), mkBin("-", mkBin("+", a, b), b), mkBin("-", b, a)} {
					if s := x.eq(e, map[string]ref.V{"a": times[i], "b": du}); s != "" {
						return s
					}
				}
			}
			return timeText(times[i])
		})
	})
	dtDates := []ref.Date{{Y: 2020, M: 2, D: 28}, {Y: 2020, M: 2, D: 29}, {Y: 2019, M: 12, D: 31}, {Y: 2020, M: 1, D: 31}, {Y: 1900, M: 3, D: 1}, {Y: 2000, M: 1, D: 1}}
	r.Par(len(times), func(w *mc.W, i int) {
		tcase(w, "date-times plus and minus durations at "+ref.Key(times[i]), func(x *tcheck) string {
			for _, d := range dtDates {
				dt := ref.DateTime{Date: d, Time: times[i]}
				for _, du := range tdurs {
					for _, md := range []ref.Dur{{}, {Mo: 1}, {D: -1}, {Mo: -12, D: 31}} {
						du := ref.Dur{Mo: du.Mo + md.Mo, D: du.D + md.D, S: du.S, N: du.N}
						for _, e := range []ref.Expr{mkBin("+", a, b), mkBin("+", b, a), mkBin("-", a, b), mkBin("-", mkBin("+", a, b), b)} {
							if s := x.eq(e, map[string]ref.V{"a": dt, "b": du}); s != "" {
								return s
							}
						}
					}
				}
				if s := dateTimeText(dt); s != "" {
					return s
				}
			}
			return ""
		})
	})
	// Durations
	var ds []ref.V
	for _, mo := range []int64{0, 1, -3} {
		for _, d := range []int64{0, 1, -40} {
			for _, s := range []int64{0, 7, -86400} {
				for _, n := range []int64{0, 5, -999999999} {
					ds = append(ds, ref.Dur{Mo: mo, D: d, S: s, N: n})
				}
			}
		}
	}
	cmps := []string{"=", "<>", "<", "<=", ">", ">="}
	r.Par(len(ds), func(w *mc.W, i int) {
		tcase(w, "duration "+ref.Key(ds[i]), func(x *tcheck) string {
			for _, d := range ds {
				p := map[string]ref.V{"a": ds[i], "b": d}
				for _, op := range []string{"+", "-"} {
					if s := x.eq(mkBin(op, a, b), p); s != "" {
						return s
					}
				}
				for _, op := range cmps {
					if s := x.eq(ref.C1(op, a, b), p); s != "" {
						return s
					}
				}
			}
			for _, k := range []ref.V{0, 1, -1, 2, 3, -7, 1000, 0.0, 0.5, 1.5, -2.25, 2.0, nil, "x", true} {
				p := map[string]ref.V{"a": ds[i], "b": k}
				for _, op := range []string{"*", "/", "+", "-", "%", "^"} {
					if s := x.eq(mkBin(op, a, b), p); s != "" {
						return s
					}
					if s := x.eq(mkBin(op, b, a), p); s != "" {
						return s
					}
				}
			}
			return ""
		})
	})
	durationTexts(r)
	today(r)
	zonedTexts(r, zones)
	// Comparison of all pairs of the moments
	var moments []ref.V
	for _, d := range append(append([]ref.Date{}, dtDates...), ref.Date{Y: 2020, M: 3, D: 1}, ref.Date{Y: 2021, M: 1, D: 1}, ref.Date{Y: 2020, M: 10, D: 9}, ref.Date{Y: 1, M: 1, D: 1}, ref.Date{Y: 9999, M: 12, D: 31}) {
		moments = append(moments, d)
		for _, t := range times[:8] {
			moments = append(moments, ref.DateTime{Date: d, Time: t})
		}
	}
	for _, t := range times {
		moments = append(moments, t)
	}
	moments = append(moments, nil, 1, "2020-02-28", ref.Dur{D: 1})
	r.Par(len(moments), func(w *mc.W, i int) {
		tcase(w, "comparison with "+ref.Key(moments[i]), func(x *tcheck) string {
			for _, m := range moments {
				p := map[string]ref.V{"a": moments[i], "b": m}
				for _, op := range cmps {
					if s := x.eq(ref.C1(op, a, b), p); s != "" {
						return s
					}
				}
				va, vb := x.world.Value(moments[i]), x.world.Value(m)
				if got, wnt := oc.IsValueSame(va, vb), ref.Same(moments[i], m); got != wnt {
					return fmt.Sprintf("IsValueSame(%s, %s) is %v", ref.Key(moments[i]), ref.Key(m), got)
				}
			}
			return ""
		})
	})
	// Search over dates and date-times reached by arithmetic
	depth := 3
	if r.Thorough {
		depth = 7
	}
	steps := []ref.Dur{{Mo: 1}, {D: 1}, {Mo: -1, D: 29}, {S: 86399, N: 1}, {D: -366}}
	front := []ref.V{ref.Date{Y: 2020, M: 1, D: 31}, ref.Date{Y: 2000, M: 2, D: 29}, ref.DateTime{Date: ref.Date{Y: 2019, M: 12, D: 31}, Time: ref.Time{H: 23, M: 59, S: 59, N: 999999999}}}
	seen := map[string]bool{}
	for lvl := 0; lvl < depth; lvl++ {
		var next []ref.V
		for _, f := range front {
			for _, s := range steps {
				for _, op := range []string{"+", "-"} {
					v, _ := mkBin(op, a, b).Eval(&ref.Env{Params: map[string]ref.V{"a": f, "b": s}})
					if !seen[ref.Key(v)] {
						seen[ref.Key(v)] = true
						next = append(next, v)
					}
				}
			}
		}
		fr := front
		r.Par(len(fr), func(w *mc.W, i int) {
			tcase(w, "reached: "+ref.Key(fr[i]), func(x *tcheck) string {
				for _, s := range steps {
					for _, op := range []string{"+", "-"} {
						if m := x.eq(mkBin(op, a, b), map[string]ref.V{"a": fr[i], "b": s}); m != "" {
							return m
						}
					}
				}
				return ""
			})
		})
		front = next
	}
}

func parseDate(x *tcheck, text string, d ref.Date) string {
	q, err := x.w.Cache.Parse("RETURN parseDate($a, $b)")
	if err != nil {
		return err.Error()
	}
	gv, gerr, bad := evalExpr(x.world, q, x.world.Ctx(nil, map[string]ref.V{"a": text, "b": "YYYY-MM-DD"}))
	if s := cmpValue(d, ref.OK, gv, gerr, bad); s != "" {
		return "parseDate('" + text + "', 'YYYY-MM-DD') " + s
	}
	return ""
}

func dateText(d ref.Date) string {
	v := oc.NewDate(time.Date(d.Y, time.Month(d.M), d.D, 0, 0, 0, 0, time.UTC))
	if got, wnt := v.String(), fmt.Sprintf("%04d-%02d-%02d", d.Y, d.M, d.D); got != wnt {
		return fmt.Sprintf("the text of %s is %q", wnt, got)
	}
	return ""
}

func timeText(d ref.Time) string {
	v := oc.NewLocalTime(time.Date(2000, 1, 1, d.H, d.M, d.S, d.N, time.UTC))
	if got, wnt := v.String(), fmt.Sprintf("%02d:%02d:%02d", d.H, d.M, d.S); got != wnt {
		return fmt.Sprintf("the text of %s is %q", wnt, got)
	}
	return ""
}

func dateTimeText(d ref.DateTime) string {
	v := oc.NewLocalDateTime(time.Date(d.Y, time.Month(d.Date.M), d.D, d.H, d.Time.M, d.S, d.N, time.UTC))
	if got, wnt := v.String(), fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", d.Y, d.Date.M, d.D, d.H, d.Time.M, d.S); got != wnt {
		return fmt.Sprintf("the text of %s is %q", wnt, got)
	}
	return ""
}

var durText = regexp.MustCompile(`^P(-?\d+)M(-?\d+)DT(-?)(\d+)(?:\.(\d{9}))?S$`)

// durationTexts checks that the text of a duration denotes the duration
func durationTexts(r *mc.Run) {
	nanos := []int{0, 1, -1, 5, 500000000, -500000000, 999999999, -999999999, 1000000000, -1000000000, 1500000000, -1500000001, 123456789, -10}
	secs := []int64{0, 1, -1, 2, -2, 59, 60, 61, -60, 3600, 86400, -86401, 1000000000000, -1000000000000}
	mos := []int64{0, 1, -1, 12, -13, 100000}
	if r.Thorough {
		for i := 1; i < 1000; i += 7 {
			nanos = append(nanos, i*1000003, -i*1000003)
			secs = append(secs, int64(i*97), int64(-i*97))
		}
	}
	r.Par(len(secs), func(w *mc.W, i int) {
		w.Case(fmt.Sprintf("text of durations of %d seconds", secs[i]), func() string {
			for _, n := range nanos {
				for _, mo := range mos {
					for _, days := range []int64{0, 1, -1, 30, -400} {
						d := oc.Duration{Months: mo, Days: days, Seconds: secs[i], Nanos: n}
						text := d.String()
						r.Trans(1)
						r.Trace(1)
						r.State(text)
						m := durText.FindStringSubmatch(text)
						at := fmt.Sprintf("the text of %d months, %d days, %d seconds, %d nanoseconds is %q", mo, days, secs[i], n, text)
						if m == nil {
							return at + ", which is no duration"
						}
						num := func(s string) *big.Int {
							x, _ := new(big.Int).SetString("0"+strings.TrimPrefix(s, "-"), 10)
							if strings.HasPrefix(s, "-") {
								x.Neg(x)
							}
							return x
						}
						total := new(big.Int).Add(new(big.Int).Mul(num(m[4]), big.NewInt(1000000000)), num(m[5]))
						if m[3] == "-" {
							total.Neg(total)
						}
						want := new(big.Int).Add(new(big.Int).Mul(big.NewInt(secs[i]), big.NewInt(1000000000)), big.NewInt(int64(n)))
						if num(m[1]).Cmp(big.NewInt(mo)) != 0 || num(m[2]).Cmp(big.NewInt(days)) != 0 || total.Cmp(want) != 0 {
							return at
						}
						for _, e := range []oc.Duration{{Months: mo + 1, Days: days, Seconds: secs[i], Nanos: n}, {Months: mo, Days: days - 1, Seconds: secs[i], Nanos: n}, {Months: mo, Days: days, Seconds: secs[i] + 1, Nanos: n}, {Months: mo, Days: days, Seconds: secs[i], Nanos: n + 1}, {Months: days, Days: mo, Seconds: secs[i], Nanos: n}, {Months: mo, Days: days, Seconds: secs[i] - 1, Nanos: n + 1000000000}, {Months: mo, Days: days, Seconds: secs[i] + 1, Nanos: n - 1000000000}, {Months: mo, Days: days - 1, Seconds: secs[i] + 86400, Nanos: n}, {Months: mo - 1, Days: days + 30, Seconds: secs[i], Nanos: n}, {Months: -mo, Days: -days, Seconds: -secs[i], Nanos: -n}} {
							if d.Equal(e) != (d == e) || e.Equal(d) != (d == e) {
								return fmt.Sprintf("Equal of %v and %v is %v", d, e, d.Equal(e))
							}
						}
						if !d.Equal(d) {
							return fmt.Sprintf("%v does not equal itself", d)
						}
					}
				}
			}
			return ""
		})
	})
}

// today checks the date of the day, in all zones and in the local one
func today(r *mc.Run) {
	for _, z := range []string{"", "UTC", "Etc/GMT+12", "Pacific/Kiritimati", "Asia/Kathmandu", "America/New_York", "Asia/Tokyo", "Europe/Berlin", "Pacific/Honolulu"} {
		z := z
		loc := time.Local
		if z != "" {
			l, err := time.LoadLocation(z)
			if err != nil {
				continue
			}
			loc = l
		}
		r.Seq(func(w *mc.W) {
			tcase(w, "today in "+z, func(x *tcheck) string {
				text, params := "RETURN date()", map[string]ref.V{}
				if z != "" {
					text, params = "RETURN date({timezone: $z})", map[string]ref.V{"z": z}
				}
				q, err := w.Cache.Parse(text)
				if err != nil {
					return err.Error()
				}
				before := time.Now().In(loc).Format("2006-01-02")
				v, gerr, bad := evalExpr(x.world, q, x.world.Ctx(nil, params))
				after := time.Now().In(loc).Format("2006-01-02")
				x.n++
				d, ok := v.(ref.Date)
				if gerr != nil || bad != "" || !ok {
					return fmt.Sprint("gives ", ref.Key(v), " ", gerr, bad)
				}
				if got := fmt.Sprintf("%04d-%02d-%02d", d.Y, d.M, d.D); got != before && got != after {
					return "is " + got + ", expected " + before
				}
				return ""
			})
		})
	}
	for _, bad := range []ref.V{"Nowhere/Else", 1, true} {
		bad := bad
		r.Seq(func(w *mc.W) {
			tcase(w, "today in a zone that does not exist: "+ref.Key(bad), func(x *tcheck) string {
				q, err := w.Cache.Parse("RETURN date({timezone: $z})")
				if err != nil {
					return err.Error()
				}
				x.n++
				if v, gerr, b := evalExpr(x.world, q, x.world.Ctx(nil, map[string]ref.V{"z": bad})); gerr == nil || b != "" {
					return "gives " + ref.Key(v) + b
				}
				return ""
			})
		})
	}
}

// zonedTexts checks that the values made from a moment have the date and
// the time of day the moment has in its own zone
func zonedTexts(r *mc.Run, zones []string) {
	for _, local := range zones {
		loc, err := time.LoadLocation(local)
		if err != nil {
			continue
		}
		old := time.Local
		time.Local = loc
		r.Par(len(zones), func(w *mc.W, i int) {
			z, err := time.LoadLocation(zones[i])
			if err != nil {
				return
			}
			w.Case(fmt.Sprintf("values of moments in %s, local zone %s", zones[i], local), func() string {
				for _, d := range []ref.Date{{Y: 2020, M: 2, D: 29}, {Y: 2019, M: 12, D: 31}, {Y: 2021, M: 1, D: 1}, {Y: 2023, M: 7, D: 15}} {
					for h := 0; h < 24; h++ {
						for _, mi := range []int{0, 29, 59} {
							t := time.Date(d.Y, time.Month(d.M), d.D, h, mi, 7, 8, z)
							day, clock := t.Format("2006-01-02"), t.Format("15:04:05")
							r.Trans(4)
							r.Trace(4)
							if got := oc.NewDate(t).String(); got != day {
								return fmt.Sprintf("the date of %v is %s", t, got)
							}
							if got := oc.NewLocalTime(t).String(); got != clock {
								return fmt.Sprintf("the time of %v is %s", t, got)
							}
							if got := oc.NewLocalDateTime(t).String(); got != day+"T"+clock {
								// A time the local zone skips
								if u := time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), 7, 8, loc); u.Hour() == t.Hour() {
									return fmt.Sprintf("the date-time of %v is %s", t, got)
								}
							}
							if got := oc.Time(t).String(); got != clock || !oc.Time(t).Time().Equal(t) {
								return fmt.Sprintf("the time with a zone of %v is %s", t, got)
							}
							if n := oc.NewLocalTime(t).Time().Nanosecond(); n != 8 {
								return fmt.Sprintf("the time of %v has %d nanoseconds", t, n)
							}
						}
					}
				}
				return ""
			})
		})
		time.Local = old
	}
}
