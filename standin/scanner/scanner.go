// Package scanner stands in for github.com/boynton/scanner, which is not available here. It provides the interface the
// SADL parser uses: symbols, numbers, strings (their text between the quotes, escapes kept), comments (a line comment
// does not include its line end), newlines and punctuation.
package scanner

import (
	"bufio"
	"fmt"
	"io"
	"strings"
)

type TokenType int

const (
	UNDEFINED TokenType = iota
	EOF
	LINE_COMMENT
	BLOCK_COMMENT
	SYMBOL
	NUMBER
	STRING
	COLON
	SEMICOLON
	COMMA
	DOT
	EQUALS
	OPEN_BRACE
	CLOSE_BRACE
	OPEN_BRACKET
	CLOSE_BRACKET
	OPEN_PAREN
	CLOSE_PAREN
	OPEN_ANGLE
	CLOSE_ANGLE
	NEWLINE
)

var names = []string{"UNDEFINED", "EOF", "LINE_COMMENT", "BLOCK_COMMENT", "SYMBOL", "NUMBER", "STRING", "COLON", "SEMICOLON", "COMMA", "DOT", "EQUALS", "OPEN_BRACE", "CLOSE_BRACE", "OPEN_BRACKET", "CLOSE_BRACKET", "OPEN_PAREN", "CLOSE_PAREN", "OPEN_ANGLE", "CLOSE_ANGLE", "NEWLINE"}

func (t TokenType) String() string { return names[t] }

type Token struct {
	Type  TokenType
	Text  string
	Line  int
	Start int
}

func (t Token) String() string   { return fmt.Sprintf("<%v %q %d:%d>", t.Type, t.Text, t.Line, t.Start) }
func (t *Token) IsText() bool    { return t.Type == SYMBOL || t.Type == STRING }
func (t *Token) IsNumeric() bool { return t.Type == NUMBER }

const RED = "\033[0;31m"

type Scanner struct {
	in        *bufio.Reader
	line, col int
	// Ended counts how often the end has been reported; a caller that asks without end is stopped.
	Ended int
}

// Limit is the number of times the end of the input may be asked for.
const Limit = 2000

func NewScanner(r io.Reader) *Scanner { return &Scanner{in: bufio.NewReader(r), line: 1} }

const eof = rune(-1)

func (s *Scanner) read() rune {
	c, _, err := s.in.ReadRune()
	if err != nil {
		return eof
	}
	s.col++
	return c
}

func (s *Scanner) unread(c rune) {
	if c != eof {
		s.in.UnreadRune()
		s.col--
	}
}

func letter(c rune) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
func digit(c rune) bool  { return c >= '0' && c <= '9' }

var punct = map[rune]TokenType{':': COLON, ';': SEMICOLON, ',': COMMA, '.': DOT, '=': EQUALS, '{': OPEN_BRACE, '}': CLOSE_BRACE, '[': OPEN_BRACKET, ']': CLOSE_BRACKET, '(': OPEN_PAREN, ')': CLOSE_PAREN, '<': OPEN_ANGLE, '>': CLOSE_ANGLE}

func (s *Scanner) Scan() Token {
	c := s.read()
	for c == ' ' || c == '\t' || c == '\r' {
		c = s.read()
	}
	tok := Token{Line: s.line, Start: s.col}
	var b strings.Builder
	take := func(ok func(rune) bool) {
		for c != eof && ok(c) {
			b.WriteRune(c)
			c = s.read()
		}
		s.unread(c)
	}
	switch {
	case c == eof:
		tok.Type = EOF
		if s.Ended++; s.Ended > Limit {
			panic("runaway: the end of the input has been asked for without end")
		}
	case c == '\n':
		tok.Type = NEWLINE
		s.line++
		s.col = 0
	case letter(c):
		tok.Type = SYMBOL
		take(func(c rune) bool { return letter(c) || digit(c) })
	case digit(c) || c == '-':
		tok.Type = NUMBER
		b.WriteRune(c)
		c = s.read()
		take(func(c rune) bool { return digit(c) || c == '.' || c == 'e' || c == 'E' || c == '-' || c == '+' })
	case c == '"':
		tok.Type = UNDEFINED
		for c = s.read(); c != eof && c != '\n'; c = s.read() {
			if c == '"' {
				tok.Type = STRING
				break
			}
			b.WriteRune(c)
			if c == '\\' {
				if c = s.read(); c == eof {
					break
				}
				b.WriteRune(c)
			}
		}
	case c == '/':
		switch c = s.read(); c {
		case '/':
			tok.Type = LINE_COMMENT
			c = s.read()
			take(func(c rune) bool { return c != '\n' })
		case '*':
			tok.Type = BLOCK_COMMENT
			for prev := rune(0); c != eof; prev = c {
				if c = s.read(); c == '/' && prev == '*' {
					break
				}
				if c == '\n' {
					s.line++
				}
				b.WriteRune(c)
			}
		default:
			s.unread(c)
		}
	default:
		if t, ok := punct[c]; ok {
			tok.Type = t
		}
		b.WriteRune(c)
	}
	tok.Text = b.String()
	return tok
}

// FormattedAnnotation: the message, with the line it is about.
func FormattedAnnotation(path, source, prefix, msg string, tok *Token, color string, contextSize int) string {
	if tok == nil {
		return fmt.Sprintf("%s%s: %s", prefix, path, msg)
	}
	lines := strings.Split(source, "\n")
	text := ""
	if tok.Line >= 1 && tok.Line <= len(lines) {
		text = lines[tok.Line-1]
	}
	return fmt.Sprintf("%s%s:%d: %s\n%s", prefix, path, tok.Line, msg, text)
}
