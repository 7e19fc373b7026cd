package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/boynton/sadl"
	"verif/mc"
)

// independent calendar arithmetic (days-from-civil and back)
func daysFromCivil(y, m, d int64) int64 {
	if m <= 2 {
		y--
	}
	var era int64
	if y >= 0 {
		era = y / 400
	} else {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mm := m + 9
	if m > 2 {
		mm = m - 3
	}
	doy := (153*mm+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}
func civilFromDays(z int64) (y, m, d int64) {
	z += 719468
	var era int64
	if z >= 0 {
		era = z / 146097
	} else {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	if mp < 10 {
		m = mp + 3
	} else {
		m = mp - 9
	}
	if m <= 2 {
		y++
	}
	return
}
func leap(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
func monthDays(y, m int64) int64 {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	}
	return 31
}

func init() {
	mc.Register(&mc.Prop{ID: "C03",
		Bounds:      "print: years {0,1,999,1000,1582,1899,1970,2000,2023,2024,2100,9999} x months x boundary days x boundary hours/minutes/seconds x sub-second values x 7 zones; parse: all boundary field values (in and out of range) x fraction spellings x suffixes; every single-character replacement of a valid text by 'x'",
		Assumptions: []string{"oracle: independent proleptic Gregorian day arithmetic; the zero time prints as empty by design and is left out"},
		Harnesses: []mc.Harness{
			{Name: "print", Gen: func(c *mc.C) mc.Case {
				y := mc.Pick(c, int64(0), 1, 999, 1000, 1582, 1899, 1970, 2000, 2023, 2024, 2100, 9999)
				mo := mc.Pick(c, int64(1), 2, 6, 12)
				d := mc.Pick(c, int64(1), 9, 28, 29, 30, 31)
				if d > monthDays(y, mo) {
					return nil
				}
				h := mc.Pick(c, int64(0), 9, 23)
				mi := mc.Pick(c, int64(0), 59)
				s := mc.Pick(c, int64(0), 59)
				ns := mc.Pick(c, int64(0), 1, 999999, 1000000, 10000000, 123456789, 999999999)
				zone := mc.Pick(c, 0, 19800, -28800, 14*3600, -12*3600, 3600, -1)
				return func(r *mc.R) {
					secs := daysFromCivil(y, mo, d)*86400 + h*3600 + mi*60 + s - int64(zone)
					loc := time.UTC
					if zone != 0 {
						loc = time.FixedZone("z", zone)
					}
					t := time.Unix(secs, ns).In(loc)
					r.Input(func() string { return t.String() })
					days := secs / 86400
					rem := secs % 86400
					if rem < 0 {
						rem += 86400
						days--
					}
					uy, um, ud := civilFromDays(days)
					if uy < 0 || uy > 9999 || t.IsZero() {
						r.Outcome("out of range")
						return
					}
					want := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d.%03dZ", uy, um, ud, rem/3600, rem/60%60, rem%60, ns/1000000)
					ts := sadl.Timestamp{Time: t}
					got := ts.String()
					r.Outcome("%s", got)
					if got != want {
						r.Fail("print", "prints %s, want %s", got, want)
						return
					}
					trunc := time.Unix(secs, ns-ns%1000000)
					back, err := sadl.ParseTimestamp(got)
					if err != nil || !back.Time.Equal(trunc) {
						r.Fail("reparse", "%s parses to %v, %v", got, back.Time, err)
					}
					b, err := json.Marshal(map[string]interface{}{"t": ts, "p": &ts})
					if err != nil || string(b) != `{"p":"`+want+`","t":"`+want+`"}` {
						r.Fail("json", "JSON is %s, %v", b, err)
						return
					}
					var x struct {
						T sadl.Timestamp
						P *sadl.Timestamp
					}
					if err := json.Unmarshal(b, &x); err != nil || !x.T.Time.Equal(trunc) || x.P == nil || !x.P.Time.Equal(trunc) {
						r.Fail("unjson", "%s decodes to %v, %v", b, x.T, err)
					}
					if ts.Time != t {
						r.Fail("mutated", "printing changed the value")
					}
				}
			}},
			{Name: "parse", Gen: func(c *mc.C) mc.Case {
				y := mc.Pick(c, int64(2019), 2000, 1900, 1)
				mo := mc.Pick(c, int64(2), 0, 1, 12, 13)
				d := mc.Pick(c, int64(4), 0, 28, 29, 30, 31, 32)
				h := mc.Pick(c, int64(1), 0, 23, 24, 99)
				mi := mc.Pick(c, int64(5), 0, 59, 60)
				s := mc.Pick(c, int64(16), 0, 59, 60)
				fr := mc.Pick(c, ".565", "", ".5", ".05", ".000", ".")
				sfx := mc.Pick(c, "Z", "+00:00", "-00:00", "+0000", "-0000", "", "z", "+01:00", "-00:30", "+0100", "+00", "ZZ", " Z")
				text := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s%s", y, mo, d, h, mi, s, fr, sfx)
				return func(r *mc.R) {
					r.Input(func() string { return text })
					ok := mo >= 1 && mo <= 12 && d >= 1 && d <= monthDays(y, mo) && h < 24 && mi < 60 && s < 60 && fr != "." &&
						(sfx == "Z" || sfx == "+00:00" || sfx == "-00:00" || sfx == "+0000" || sfx == "-0000")
					ts, err := sadl.ParseTimestamp(text)
					r.Outcome("%v", err == nil)
					if (err == nil) != ok {
						r.Fail("verdict", "ParseTimestamp(%q): %v, want accepted=%v", text, err, ok)
						return
					}
					var viaJSON sadl.Timestamp
					jerr := json.Unmarshal([]byte(`"`+text+`"`), &viaJSON)
					if (jerr == nil) != ok {
						r.Fail("json-verdict", "JSON %q: %v, want accepted=%v", text, jerr, ok)
						return
					}
					if !ok {
						if !ts.IsZero() || !viaJSON.IsZero() {
							r.Fail("partial", "a rejected text %q still gave a value", text)
						}
						return
					}
					ms := map[string]int64{".565": 565, "": 0, ".5": 500, ".05": 50, ".000": 0}[fr]
					secs := daysFromCivil(y, mo, d)*86400 + h*3600 + mi*60 + s
					if ts.Unix() != secs || int64(ts.Nanosecond()) != ms*1000000 || !viaJSON.Time.Equal(ts.Time) {
						r.Fail("instant", "%q parses to %v (JSON: %v)", text, ts.Time.UTC(), viaJSON.Time.UTC())
					}
				}
			}},
			{Name: "edits", Gen: func(c *mc.C) mc.Case {
				base := mc.Pick(c, "2019-02-04T01:05:16.565Z", "2019-02-04T01:05:16.565+00:00", "2019-02-04T01:05:16.565-0000")
				i := c.Choose(len(base))
				k := c.Choose(4)
				var text string
				switch k {
				case 0:
					text = base[:i] + "x" + base[i+1:]
				case 1:
					text = base[:i] + " " + base[i:]
				case 2:
					text = base[:i]
				case 3:
					text = base[:i] + "Z" + base[i+1:]
				}
				if text == base {
					return nil
				}
				return func(r *mc.R) {
					r.Input(func() string { return text })
					ts, err := sadl.ParseTimestamp(text)
					r.Outcome("%v", err == nil)
					ok := strings.HasSuffix(text, "Z") && (k == 3 && i == len(base)-6 && false)
					if err == nil && !ok {
						r.Fail("verdict", "ParseTimestamp(%q) accepted as %v", text, ts)
					}
				}
			}},
		}})

	hexs := "0123456789abcdefABCDEF"
	isUUID := func(s string) bool {
		if len(s) != 36 {
			return false
		}
		for i := 0; i < 36; i++ {
			if i == 8 || i == 13 || i == 18 || i == 23 {
				if s[i] != '-' {
					return false
				}
			} else if strings.IndexByte(hexs, s[i]) < 0 {
				return false
			}
		}
		return true
	}
	model, _ := sadl.NewModel(&sadl.Schema{Name: "t", Types: []*sadl.TypeDef{td("Id", tsOf("UUID"))}})
	checkUUID := func(r *mc.R, s string) {
		r.Input(func() string { return fmt.Sprintf("%q", s) })
		want := isUUID(s)
		u := sadl.ParseUUID(s)
		r.Outcome("%v", u != "")
		if want && string(u) != s || !want && u != "" {
			r.Fail("parse", "ParseUUID(%q) = %q", s, u)
		}
		b, _ := json.Marshal(s)
		x := sadl.UUID("before")
		err := json.Unmarshal(b, &x)
		if want && (err != nil || string(x) != s) || !want && (err == nil || x != "before") {
			r.Fail("json", "JSON decoding %s: %q, %v", b, x, err)
		}
		if want {
			if o, err := json.Marshal(x); err != nil || string(o) != string(b) {
				r.Fail("json", "JSON of UUID %q is %s, %v", x, o, err)
			}
		}
		for _, v := range []interface{}{s, &s} {
			if e := model.Validate("", "Id", v); (e == nil) != want {
				r.Fail("validate", "validation of %q: %v", s, e)
			}
		}
	}
	bases := []string{"1ce437b0-1dd2-11b2-81ef-003ee1be85f9", "00000000-0000-0000-0000-000000000000", "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF"}
	repl := []string{"0", "9", "a", "f", "A", "F", "g", "G", "-", " ", "/", ":", "@", "`", "_", "x", "\n", "é", "İ", "Ł", "š", "٣", "０", "\x80"}
	mc.Register(&mc.Prop{ID: "C04",
		Bounds: "every replacement of one and of two characters of three base texts by 17 characters around the class boundaries, and of one by 7 characters beyond ASCII that resemble digits in some byte; every truncation, deletion, insertion, doubling, hyphen move",
		Harnesses: []mc.Harness{
			{Name: "edit1", Gen: func(c *mc.C) mc.Case {
				b := mc.Pick(c, bases...)
				i := c.Choose(len(b))
				x := mc.Pick(c, repl...)
				k := c.Choose(4)
				s := b[:i] + x + b[i+1:]
				switch k {
				case 1:
					s = b[:i] + x + b[i:]
				case 2:
					s = b[:i] + b[i+1:] + x
				case 3:
					if i+len(x) > len(b) {
						return nil
					}
					s = b[:i] + x + b[i+len(x):]
				}
				return func(r *mc.R) { checkUUID(r, s) }
			}},
			{Name: "edit2", Gen: func(c *mc.C) mc.Case {
				b := bases[0]
				i := c.Choose(len(b))
				j := c.Choose(len(b))
				if i >= j {
					return nil
				}
				s := []byte(b)
				s[i] = mc.Pick(c, repl[:17]...)[0]
				s[j] = mc.Pick(c, repl[:17]...)[0]
				return func(r *mc.R) { checkUUID(r, string(s)) }
			}},
			{Name: "shape", Gen: func(c *mc.C) mc.Case {
				b := mc.Pick(c, bases...)
				k := c.Choose(5)
				i := c.Choose(len(b) + 1)
				var s string
				switch k {
				case 0:
					s = b[:i]
				case 1:
					s = b[i:]
				case 2:
					s = b + b[:i]
				case 3:
					s = strings.ReplaceAll(b, "-", "")
					s = s[:i%len(s)] + "-" + s[i%len(s):]
				case 4:
					s = "{" + b[:i] + "}"
				}
				return func(r *mc.R) { checkUUID(r, s) }
			}},
			{Name: "json-kinds", Gen: func(c *mc.C) mc.Case {
				s := mc.Pick(c, `1`, `true`, `{}`, `[]`, `""`, `["1ce437b0-1dd2-11b2-81ef-003ee1be85f9"]`)
				return func(r *mc.R) {
					r.Input(func() string { return s })
					x := sadl.UUID("before")
					err := json.Unmarshal([]byte(s), &x)
					r.Outcome("%v", err == nil)
					if err == nil || x != "before" {
						r.Fail("json", "JSON %s accepted as UUID %q", s, x)
					}
				}
			}},
		}})

	amounts := []string{"0", "1", "-1", "5", "12", "100", "100.5", "0.1", "-0.001", "99.99", "1e3", "123456789012345678901234567890", "0.123456789012345678901234567890123456789", "9223372036854775808", "+7", "007", ".5"}
	mc.Register(&mc.Prop{ID: "C05",
		Bounds: "17 amounts x every unit of length 1..3 (4 in thorough) over {a,U,space,quote,backslash,newline,tab,<,&,é,0,/}; every text up to length 5 over {1,.,-,space,a,e}",
		Harnesses: []mc.Harness{
			{Name: "roundtrip", Gen: func(c *mc.C) mc.Case {
				n := 3
				if c.Thorough() {
					n = 4
				}
				am := mc.Pick(c, amounts...)
				unit := enumString(c, []string{"a", "U", " ", "\"", "\\", "\n", "\t", "<", "&", "é", "0", "/"}, n)
				if unit == "" {
					return nil
				}
				return func(r *mc.R) {
					r.Input(func() string { return fmt.Sprintf("%s %q", am, unit) })
					text := am + " " + unit
					u, err := sadl.ParseUnitValue(text)
					if err != nil || u == nil || u.Unit != unit || unsign0(u.Value.String()) != canonDec(am) {
						r.Fail("parse", "ParseUnitValue(%q) = %v, %v", text, u, err)
						return
					}
					r.Outcome("%s", u)
					sameText := func(s string) bool {
						p := strings.SplitN(s, " ", 2)
						return len(p) == 2 && p[1] == unit && decRe.MatchString(p[0]) && canonDec(p[0]) == canonDec(am)
					}
					if got := u.String(); !sameText(got) {
						r.Fail("print", "prints %q", got)
					}
					b, err := json.Marshal(map[string]interface{}{"v": u})
					if err != nil {
						r.Fail("json", "Marshal: %v", err)
						return
					}
					var x struct{ V *sadl.UnitValue }
					if err := json.Unmarshal(b, &x); err != nil || x.V == nil || x.V.Unit != unit || x.V.Value.Cmp(&u.Value.Float) != 0 {
						r.Fail("unjson", "%s decodes to %v, %v", b, x.V, err)
					}
					var s struct{ V string }
					if err := json.Unmarshal(b, &s); err != nil || !sameText(s.V) {
						r.Fail("json", "JSON %s holds %q, %v", b, s.V, err)
					}
				}
			}},
			{Name: "verdict", Gen: func(c *mc.C) mc.Case {
				s := enumString(c, []string{"1", ".", "-", " ", "a", "e"}, 5)
				return func(r *mc.R) {
					r.Input(func() string { return fmt.Sprintf("%q", s) })
					i := strings.Index(s, " ")
					want := i > 0 && decRe.MatchString(s[:i]) && i+1 < len(s)
					u, err := sadl.ParseUnitValue(s)
					r.Outcome("%v", err == nil)
					if (err == nil) != want || (u != nil) != want {
						r.Fail("verdict", "ParseUnitValue(%q) = %v, %v", s, u, err)
						return
					}
					b, _ := json.Marshal(s)
					x := sadl.UnitValue{Unit: "before"}
					err = json.Unmarshal(b, &x)
					if (err == nil) != want || !want && x.Unit != "before" {
						r.Fail("json-verdict", "JSON %s: %v, %v", b, x, err)
					}
					if want && (u.Unit != s[i+1:] || unsign0(u.Value.String()) != canonDec(s[:i])) {
						r.Fail("content", "ParseUnitValue(%q) = %v", s, u)
					}
				}
			}},
			{Name: "json-kinds", Gen: func(c *mc.C) mc.Case {
				s := mc.Pick(c, `1`, `true`, `{}`, `[]`, `""`, `"Inf USD"`, `"NaN USD"`, `"USD"`, `"1"`)
				return func(r *mc.R) {
					r.Input(func() string { return s })
					var x sadl.UnitValue
					err := json.Unmarshal([]byte(s), &x)
					r.Outcome("%v", err == nil)
					if err == nil {
						r.Fail("json", "JSON %s accepted as a unit value %v", s, x)
					}
				}
			}},
			{Name: "new", Gen: func(c *mc.C) mc.Case {
				f := mc.Pick(c, 0.0, 1, -1, 0.1, 99.99, 1e21, 1e-7, 123456.789)
				return func(r *mc.R) {
					r.Input(func() string { return fmt.Sprint(f) })
					u := sadl.NewUnitValue(f, "USD")
					r.Outcome("%v", u)
					back, err := sadl.ParseUnitValue(u.String())
					if err != nil || back.Value.AsFloat64() != f || back.Unit != "USD" {
						r.Fail("new", "NewUnitValue(%v) prints %s which parses to %v, %v", f, u, back, err)
					}
				}
			}},
		}})
}
