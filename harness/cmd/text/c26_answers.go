package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/boynton/sadl"
	"verif/mc"
)

// tokens is the alphabet of token sequences: every keyword, name, literal and piece of punctuation the parser distinguishes.
var tokens = []string{
	"type", "http", "operation", "example", "include", "namespace", "name", "version", "base", "x_anno", "other",
	"Foo", "String", "Int32", "Struct", "Enum", "Union", "Array", "Map", "UnitValue", "GET",
	"inputs", "outputs", "exceptions", "expect", "except", "required", "default", "values", "min", "minsize", "action", "header", "true",
	"200", "-1.5", "99999999999999999999", `"/a/{b}"`, `"x\q"`, `"open`,
	"{", "}", "(", ")", "[", "]", "<", ">", ",", ";", ":", ".", "=", "@", "\n", "// note\n", "// note", "/* block */", "/* open",
}

// fullSource uses every construct of the language.
var fullSource = strings.Split(strings.TrimSpace(`
// about | the service | NL | name | svc | NL | namespace | com | . | example | NL | version | "1.2" | ; | NL | base | "/v1" | NL | x_server | = | "h" | NL | x_flag | // flag | NL
type | A | String | ( | pattern | = | "^a$" | , | x_a | = | "b" | , | x_b | ) | // trailing | NL
type | B | String | ( | values | = | [ | "x" | , | NL | "y" | ] | minsize | = | 1 | maxsize | = | 2 | ) | ; | NL
type | C | Int32 | ( | min | = | -1 | , | max | = | 10 | ) | NL
type | D | Array | < | String | > | ( | maxsize | = | 3 | ) | NL
type | E | Map | < | String | , | C | > | NL
type | F | UnitValue | < | Decimal | , | G | > | NL
type | G | Enum | { | // syms | NL | ONE | ( | x_v | = | "1" | ) | , | // one | NL | TWO | ; | THREE | NL | } | // end | NL
type | H | Union | < | A | , | C | > | NL
type | I | Union | { | NL | a | A | NL | c | C | NL | } | NL
type | J | Struct | ( | x_s | ) | { | // fields | NL | NL | // one | NL | one | String | ( | required | ) | // more | NL | two | Int32 | ( | default | = | 3 | , | min | = | 1 | ) | NL | three | Array | < | A | > | NL | four | Struct | { | NL | deep | Bool | NL | } | ( | required | ) | NL | five | Enum | { | NL | X | NL | Y | NL | } | NL | six | Map | < | A | , | B | > | ( | minsize | = | 1 | ) | NL | } | NL
type | K | Struct | NL
type | L | UUID | ( | reference | = | J | ) | NL
// acts | NL | http | POST | "/j/{id}?n={n}" | ( | action | = | doJ | , | resource | = | Js | , | x_h | ) | { | // here | NL | id | String | // the id | NL | n | Int32 | ( | default | = | 5 | ) | NL | auth | A | ( | header | = | "X-Auth" | ) | NL | body | J | ( | required | ) | NL | NL | // fine | NL | expect | 201 | ( | x_e | ) | { | NL | tag | String | ( | header | = | "ETag" | ) | NL | body | J | NL | } | NL | // bad | NL | except | 404 | K | // gone | NL | except | J | NL | } | NL
http | GET | "/k" | { | NL | expect | 200 | K | NL | } | NL
http | DELETE | "/k/{x}" | { | x | String | NL | expect | 204 | NL | } | NL
operation | op | ( | x_o | = | "p" | ) | { | NL | inputs | { | NL | a | A | ( | required | ) | NL | b | B | NL | } | NL | outputs | { | NL | c | C | NL | } | NL | exceptions | { | NL | K | NL | } | NL | } | NL
example | J | ( | name | = | ex1 | ) | { | "one" | : | "x" | , | NL | "four" | : | { | "deep" | : | true | } | , | "three" | : | [ | "a" | , | NL | "a" | ] | , | "two" | : | 4 | } | NL
example | J | . | one | "text \"q\"" | NL
example | DoJRequest | { | "id" | : | "i" | , | "body" | : | { | "one" | : | "x" | , | "four" | : | { | } | } | } | NL
`), "\n")

func tokensOf(line string) []string {
	var out []string
	for _, t := range strings.Split(line, " | ") {
		if t == "NL" {
			t = "\n"
		}
		out = append(out, t)
	}
	return out
}

func joinTokens(l []string) string { return strings.Join(l, " ") }

func allTokens() []string {
	var out []string
	for _, l := range fullSource {
		out = append(out, tokensOf(l)...)
	}
	return out
}

func answers(r *mc.R, src string) bool {
	m, err := sadl.ParseSadlString(src, sadl.NewData())
	if err != nil {
		if strings.TrimSpace(err.Error()) == "" {
			r.Fail("message", "the error has no message")
		}
		r.Outcome("error")
		return false
	}
	if m == nil {
		r.Fail("nothing", "neither a model nor an error")
		return false
	}
	r.Outcome("model")
	return true
}

func answerCase(src string) mc.Case {
	return func(r *mc.R) {
		r.Input(func() string { return src })
		answers(r, src)
	}
}

// includeCase: files that include files, in every arrangement of three.
func includeCase(c *mc.C) mc.Case {
	names := []string{"a.sadl", "b.sadl", "c.sadl", "missing.sadl", "."}
	files := map[string]string{}
	for _, n := range names[:3] {
		s := ""
		for k := 0; k < 2; k++ {
			if i := c.Choose(len(names) + 1); i > 0 {
				s += "include \"DIR/" + names[i-1] + "\"\n"
			}
		}
		if n != "c.sadl" || c.Bool() {
			s += "type T" + strings.ToUpper(n[:1]) + " String\n"
		} else {
			s += "type TA String\n"
		}
		files[n] = s
	}
	return func(r *mc.R) {
		r.Input(func() string { return fmt.Sprint(files) })
		for n, s := range files {
			if err := os.WriteFile(filepath.Join(r.Scratch, n), []byte(strings.ReplaceAll(s, "DIR", r.Scratch)), 0644); err != nil {
				panic(err)
			}
		}
		m, err := sadl.ParseSadlFile(filepath.Join(r.Scratch, "a.sadl"), sadl.NewData())
		if err == nil && m == nil {
			r.Fail("nothing", "neither a model nor an error")
		}
		// reference: the files are merged depth first; a cycle, a missing file or a type defined twice is an error
		var visit func(n string, open []string) ([]string, bool)
		visit = func(n string, open []string) ([]string, bool) {
			for _, o := range open {
				if o == n {
					return nil, false
				}
			}
			s, ok := files[n]
			if !ok {
				return nil, false
			}
			var types []string
			add := func(t string) bool {
				for _, x := range types {
					if x == t {
						return false
					}
				}
				types = append(types, t)
				return true
			}
			for _, l := range strings.Split(strings.TrimSpace(s), "\n") {
				w := strings.Fields(l)
				if w[0] == "include" {
					inc, ok := visit(strings.TrimSuffix(strings.TrimPrefix(w[1], `"DIR/`), `"`), append(open, n))
					if !ok {
						return nil, false
					}
					for _, t := range inc {
						if !add(t) {
							return nil, false
						}
					}
				} else if !add(w[1]) {
					return nil, false
				}
			}
			return types, true
		}
		want, ok := visit("a.sadl", nil)
		if ok != (err == nil) {
			r.Fail("include", "accepted %v (%v), want %v", err == nil, err, ok)
			return
		}
		if ok {
			var got []string
			for _, t := range m.Types {
				got = append(got, t.Name)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				r.Fail("include", "types %v, want %v", got, want)
			}
		}
		r.Outcome("%v", ok)
	}
}

func init() {
	all := allTokens()
	mc.Register(&mc.Prop{ID: "C26",
		Bounds:      fmt.Sprintf("sequences: every sequence of up to 3 (4) of %d tokens; truncations: a source of %d tokens that uses every construct, cut after every token and continued with every sequence of up to 1 (2) tokens; edits: the same source, each line by itself, with one token (two) dropped, replaced by or preceded by every token; spans: the whole source with every span of up to 12 (40) tokens dropped, doubled, reversed or moved to the end; includes: three files with up to two includes each, of each other, themselves, a missing file and a directory", len(tokens), len(all)),
		Assumptions: []string{"tokens come from the stand-in for the unavailable boynton/scanner, which provides the interface the parser uses"},
		Harnesses: []mc.Harness{
			{Name: "sequences", Gen: func(c *mc.C) mc.Case {
				n := 3
				if c.Thorough() {
					n = 4
				}
				var l []string
				for i := 0; i < n; i++ {
					k := c.Choose(len(tokens) + 1)
					if k == 0 {
						break
					}
					l = append(l, tokens[k-1])
				}
				return answerCase(joinTokens(l))
			}},
			{Name: "truncations", Gen: func(c *mc.C) mc.Case {
				l := append([]string{}, all[:c.Choose(len(all)+1)]...)
				n := 1
				if c.Thorough() {
					n = 2
				}
				for i := 0; i < n; i++ {
					k := c.Choose(len(tokens) + 1)
					if k == 0 {
						break
					}
					l = append(l, tokens[k-1])
				}
				return answerCase(joinTokens(l))
			}},
			{Name: "edits", Gen: func(c *mc.C) mc.Case {
				k := c.Choose(len(fullSource))
				l := tokensOf(fullSource[k])
				n := 1
				if c.Thorough() && len(l) < 40 {
					n = 2
				}
				for i := 0; i < n; i++ {
					at := c.Choose(len(l))
					switch how := c.Choose(2*len(tokens) + 2); {
					case how == 0:
					case how == 1:
						l = append(append([]string{}, l[:at]...), l[at+1:]...)
					case how < len(tokens)+2:
						l = append([]string{}, l...)
						l[at] = tokens[how-2]
					default:
						l = append(append(append([]string{}, l[:at]...), tokens[how-2-len(tokens)]), l[at:]...)
					}
				}
				src := joinTokens(l)
				for i, o := range fullSource {
					if i != k && i != 0 && i < 13 {
						src += joinTokens(tokensOf(o))
					}
				}
				return answerCase(src)
			}},
			{Name: "spans", Gen: func(c *mc.C) mc.Case {
				from := c.Choose(len(all))
				n := 12
				if c.Thorough() {
					n = 40
				}
				n = 1 + c.Choose(min(n, len(all)-from))
				head, span, tail := all[:from], all[from:from+n], all[from+n:]
				l := append([]string{}, head...)
				switch c.Choose(4) {
				case 0: // dropped
				case 1: // twice
					l = append(append(l, span...), span...)
				case 2: // backwards
					for i := range span {
						l = append(l, span[n-1-i])
					}
				case 3: // moved to the end
					tail = append(append([]string{}, tail...), span...)
				}
				return answerCase(joinTokens(append(l, tail...)))
			}},
			{Name: "includes", Gen: includeCase},
			{Name: "whole", Gen: func(c *mc.C) mc.Case {
				return func(r *mc.R) {
					src := joinTokens(all)
					r.Input(func() string { return src })
					if _, err := sadl.ParseSadlString(src, sadl.NewData()); err != nil {
						r.Fail("rejected", "%v", err)
					}
				}
			}},
		}})
}
