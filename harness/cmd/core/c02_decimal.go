package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/boynton/sadl"
	"verif/mc"
)

var decRe = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

// canonical positional notation of a valid literal
func canonDec(s string) string {
	neg := false
	if s[0] == '+' || s[0] == '-' {
		neg = s[0] == '-'
		s = s[1:]
	}
	exp := 0
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		exp, _ = strconv.Atoi(strings.TrimPrefix(s[i+1:], "+"))
		s = s[:i]
	}
	ip, fp := s, ""
	if i := strings.Index(s, "."); i >= 0 {
		ip, fp = s[:i], s[i+1:]
	}
	for exp > 0 {
		d := "0"
		if fp != "" {
			d, fp = fp[:1], fp[1:]
		}
		ip += d
		exp--
	}
	for exp < 0 {
		d := "0"
		if ip != "" {
			d, ip = ip[len(ip)-1:], ip[:len(ip)-1]
		}
		fp = d + fp
		exp++
	}
	ip = strings.TrimLeft(ip, "0")
	fp = strings.TrimRight(fp, "0")
	if ip == "" {
		ip = "0"
	}
	r := ip
	if fp != "" {
		r += "." + fp
	}
	if neg && r != "0" {
		r = "-" + r
	}
	return r
}

func unsign0(s string) string {
	if s == "-0" {
		return "0"
	}
	return s
}

func checkDecimal(r *mc.R, lit string) {
	d, err := sadl.ParseDecimal(lit)
	if !decRe.MatchString(lit) {
		r.Outcome("reject")
		if err == nil {
			r.Fail("accepted-bad", "ParseDecimal(%q) accepted: %v", lit, d)
		}
		return
	}
	if err != nil {
		r.Fail("rejected-good", "ParseDecimal(%q): %v", lit, err)
		return
	}
	want := canonDec(lit)
	r.Outcome("%s", want)
	if got := unsign0(d.String()); got != want {
		r.Fail("print", "ParseDecimal(%q).String() = %s, want %s", lit, got, want)
		return
	}
	b, err := json.Marshal(d)
	if err != nil || unsign0(string(b)) != want {
		r.Fail("json", "JSON of %q is %s, %v; want %s", lit, b, err, want)
		return
	}
	b2, err := json.Marshal(map[string]interface{}{"x": *d, "y": []*sadl.Decimal{d}})
	if err != nil || strings.ReplaceAll(string(b2), "-0}", "0}") == "" || !json.Valid(b2) {
		r.Fail("json", "JSON of nested %q is %s, %v", lit, b2, err)
		return
	}
	var back struct {
		X sadl.Decimal
		Y []*sadl.Decimal
	}
	if err := json.Unmarshal(b2, &back); err != nil || len(back.Y) != 1 {
		r.Fail("unjson", "decoding %s: %v", b2, err)
		return
	}
	if back.X.Cmp(&d.Float) != 0 || back.Y[0].Cmp(&d.Float) != 0 {
		r.Fail("unjson", "decoding %s gives %v and %v", b2, back.X.String(), back.Y[0])
	}
	if len(want) < 400 {
		x := rat(want)
		if x.IsInt() {
			n := x.Num()
			if n.IsInt64() && d.AsInt64() != n.Int64() {
				r.Fail("int64", "AsInt64(%s) = %d", want, d.AsInt64())
			}
			if n.IsInt64() && n.Int64() >= math.MinInt32 && n.Int64() <= math.MaxInt32 && int64(d.AsInt32()) != n.Int64() {
				r.Fail("int32", "AsInt32(%s) = %d", want, d.AsInt32())
			}
		}
		if f, exact := x.Float64(); exact && d.AsFloat64() != f {
			r.Fail("float64", "AsFloat64(%s) = %v", want, d.AsFloat64())
		}
		if f := d.AsFloat64(); f != mustFloat(want) {
			r.Fail("float64", "AsFloat64(%s) = %v", want, f)
		}
	}
}

func mustFloat(s string) float64 { f, _ := strconv.ParseFloat(s, 64); return f }

func enumString(c *mc.C, alphabet []string, maxLen int) string {
	var sb strings.Builder
	for i := 0; i < maxLen; i++ {
		k := c.Choose(len(alphabet) + 1)
		if k == 0 {
			break
		}
		sb.WriteString(alphabet[k-1])
	}
	return sb.String()
}

var orderLits = []string{"0", "-0", "1", "-1", "0.1", "0.10", "0.2", "-0.1", "10", "9", "9.9", "9.99", "127", "128", "0.3", "0.30000000000000000001", "0.29999999999999999999", "1e10", "1E-10", "10000000000", "0.0000000001", "9223372036854775807", "9223372036854775808", "9223372036854775806.5", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "1e40", "1e39", "-1e40", "123456789012345678901234567890.123456789012345678901234567890", "123456789012345678901234567890.123456789012345678901234567891", "2", "3", "2.5", "-2.5", "100", "99.99999999999999999999"}

func init() {
	mc.Register(&mc.Prop{ID: "C02",
		Bounds:      "all strings over {0,1,9,.,-,+,e,space,x} up to length 6 (7 in thorough); all digit patterns x lengths 1..70 x point positions x signs; all ordered pairs of 38 boundary literals; JSON tokens that are not numbers; a menu of float64 values",
		Assumptions: []string{"JSON null is not in the alphabet"},
		Harnesses: []mc.Harness{
			{Name: "strings", Gen: func(c *mc.C) mc.Case {
				n := 6
				if c.Thorough() {
					n = 7
				}
				s := enumString(c, []string{"0", "1", "9", ".", "-", "+", "e", " ", "x"}, n)
				if m := regexp.MustCompile(`e\+?[0-9]*[19][0-9]{2}`); m.MatchString(s) {
					return nil // exponents beyond 1e99 only cost digits
				}
				return func(r *mc.R) {
					r.Input(func() string { return fmt.Sprintf("literal %q", s) })
					checkDecimal(r, s)
				}
			}},
			{Name: "words", Gen: func(c *mc.C) mc.Case {
				s := mc.Pick(c, "Inf", "inf", "+Inf", "-Inf", "NaN", "nan", "infinity", "Infinity", "", "null", "0x10", "0b1", "1_000", "--1", "1..2", "1,5", "one", "e5", "-", "+", ".", "1e", "1e+", "٣", "1\n", "\t1", "true", "1p2", "1P-2", "-1.5p0", "1f", "1d", "1L", "½", "1 000", "1'000", "$1", "1%")
				return func(r *mc.R) {
					r.Input(func() string { return fmt.Sprintf("literal %q", s) })
					checkDecimal(r, s)
					var d sadl.Decimal
					if json.Unmarshal([]byte(s), &d) == nil && s != "null" && s != "1\n" && s != "\t1" {
						r.Fail("json-accepted-bad", "JSON %q accepted", s)
					}
					var e sadl.Decimal
					e.SetInt64(42)
					if e.UnmarshalJSON([]byte(s)) == nil {
						r.Fail("json-accepted-bad", "decoder accepted %q", s)
					}
					if e.AsInt64() != 42 {
						r.Fail("clobbered", "failed decoding of %q changed the target", s)
					}
				}
			}},
			{Name: "json-reject", Gen: func(c *mc.C) mc.Case {
				s := mc.Pick(c, `true`, `false`, `"x"`, `{}`, `[]`, `[1]`, `{"a":1}`, `""`, `"Inf"`, `"1.5"`, `"0"`, `"12345678901234567890123456789012345678901234567890"`)
				return func(r *mc.R) {
					r.Input(func() string { return s })
					var x struct{ D sadl.Decimal }
					x.D.SetInt64(42)
					err := json.Unmarshal([]byte(`{"D":`+s+`}`), &x)
					r.Outcome("%v", err == nil)
					if err == nil {
						r.Fail("json-accepted-bad", "JSON %s accepted as a decimal", s)
					}
				}
			}},
			{Name: "long", Gen: func(c *mc.C) mc.Case {
				n := c.Choose(70) + 1
				pat := c.Choose(5)
				digits := make([]byte, n)
				for i := range digits {
					switch pat {
					case 0:
						digits[i] = '9'
					case 1:
						digits[i] = '0'
					case 2:
						digits[i] = byte('1' + i%9)
					case 3:
						digits[i] = byte('0' + (i*i*7+3*i+1)%10)
					case 4:
						digits[i] = byte('0' + (i*3+5)%10)
					}
				}
				if pat == 1 {
					digits[0], digits[n-1] = '1', '1'
				}
				pt := c.Choose(n + 1)
				lit := string(digits[:pt]) + "." + string(digits[pt:])
				if pt == n {
					lit = string(digits)
				}
				if c.Bool() {
					lit = "-" + lit
				}
				if c.Bool() {
					lit += "e" + strconv.Itoa(n-2*pt)
				}
				return func(r *mc.R) {
					r.Input(func() string { return fmt.Sprintf("literal %q", lit) })
					checkDecimal(r, lit)
				}
			}},
			{Name: "order", Gen: func(c *mc.C) mc.Case {
				a, b := mc.Pick(c, orderLits...), mc.Pick(c, orderLits...)
				return func(r *mc.R) {
					r.Input(func() string { return a + " vs " + b })
					want := rat(canonDec(a)).Cmp(rat(canonDec(b)))
					got := dec(a).AsBigFloat().Cmp(dec(b).AsBigFloat())
					r.Outcome("%d", got)
					if got != want {
						r.Fail("order", "%s vs %s compares as %d, want %d", a, b, got, want)
					}
				}
			}},
			{Name: "float", Gen: func(c *mc.C) mc.Case {
				f := mc.Pick(c, 0, 1, -1, 0.1, 0.5, 1.0/3, 1e21, 1e-7, 123456.789, math.MaxInt32, math.MinInt32, 1<<53, math.Pi, 1e100, -1e-100, math.SmallestNonzeroFloat64, math.MaxFloat64)
				return func(r *mc.R) {
					r.Input(func() string { return fmt.Sprint(f) })
					d := sadl.NewDecimal(f)
					r.Outcome("%v", d)
					if d.AsFloat64() != f {
						r.Fail("newdecimal", "NewDecimal(%v).AsFloat64() = %v", f, d.AsFloat64())
					}
					if g, err := strconv.ParseFloat(d.String(), 64); err != nil || g != f || strings.ContainsAny(d.String(), "eE") {
						r.Fail("newdecimal", "NewDecimal(%v) prints %s", f, d)
					}
					if x, _ := new(big.Float).SetFloat64(f).Rat(nil); x != nil && rat(dec(d.String()).Text('f', -1)).Cmp(rat(d.String())) != 0 {
						r.Fail("newdecimal", "%v does not survive its own text", f)
					}
				}
			}},
			{Name: "bounds", Gen: func(c *mc.C) mc.Case {
				k := c.Choose(9)
				n := mc.Pick(c, int64(0), 1, -1, 5, 127, -128)
				return func(r *mc.R) {
					var in interface{}
					switch k {
					case 0:
						in = int(n)
					case 1:
						in = n
					case 2:
						in = int32(n)
					case 3:
						in = int16(n)
					case 4:
						in = int8(n)
					case 5:
						in = float32(n)
					case 6:
						in = float64(n)
					case 7:
						in = dec(fmt.Sprint(n))
					}
					r.Input(func() string { return fmt.Sprintf("default %T %v", in, in) })
					got := sadl.DecimalValue(nil, in)
					r.Outcome("%v", got)
					if k == 8 {
						if got != nil {
							r.Fail("default", "no default gives %v", got)
						}
						got = sadl.DecimalValue(dec(fmt.Sprint(n)), nil)
					}
					if got == nil || got.String() != fmt.Sprint(n) {
						r.Fail("default", "DecimalValue(nil, %T(%v)) = %v", in, in, got)
					}
					if g := sadl.DecimalValue(dec("77"), in); g == nil || g.String() != "77" {
						r.Fail("default", "an explicit value is replaced by the default: %v", g)
					}
				}
			}},
		}})
}
