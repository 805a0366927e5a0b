// Package scanner stands in for github.com/boynton/scanner, which is not
// available offline. It has the part of the interface that the SADL parser uses.
package scanner

import (
	"fmt"
	"io"
	"strings"
	"unicode"
)

type TokenType int

const (
	UNDEFINED TokenType = iota
	EOF
	ILLEGAL
	SYMBOL
	NUMBER
	STRING
	LINE_COMMENT
	BLOCK_COMMENT
	NEWLINE
	COLON
	SEMICOLON
	COMMA
	DOT
	AT
	DOLLAR
	HASH
	EQUALS
	QUESTION
	SLASH
	BACKSLASH
	BANG
	AMPERSAND
	STAR
	PLUS
	MINUS
	PIPE
	OPEN_BRACE
	CLOSE_BRACE
	OPEN_BRACKET
	CLOSE_BRACKET
	OPEN_PAREN
	CLOSE_PAREN
	OPEN_ANGLE
	CLOSE_ANGLE
)

var names = []string{"UNDEFINED", "EOF", "ILLEGAL", "SYMBOL", "NUMBER", "STRING", "LINE_COMMENT", "BLOCK_COMMENT", "NEWLINE", "COLON", "SEMICOLON", "COMMA", "DOT", "AT", "DOLLAR", "HASH", "EQUALS", "QUESTION", "SLASH", "BACKSLASH", "BANG", "AMPERSAND", "STAR", "PLUS", "MINUS", "PIPE", "OPEN_BRACE", "CLOSE_BRACE", "OPEN_BRACKET", "CLOSE_BRACKET", "OPEN_PAREN", "CLOSE_PAREN", "OPEN_ANGLE", "CLOSE_ANGLE"}

func (t TokenType) String() string { return names[t] }

type Token struct {
	Type  TokenType
	Text  string
	Line  int
	Start int
}

func (t Token) String() string  { return fmt.Sprintf("<%v %q %d:%d>", t.Type, t.Text, t.Line, t.Start) }
func (t Token) IsText() bool    { return t.Type == SYMBOL || t.Type == STRING }
func (t Token) IsNumeric() bool { return t.Type == NUMBER }

type Scanner struct {
	src  []rune
	pos  int
	line int
	col  int
}

func NewScanner(r io.Reader) *Scanner {
	b, _ := io.ReadAll(r)
	return &Scanner{src: []rune(string(b)), line: 1, col: 1}
}

func (s *Scanner) peek(n int) rune {
	if s.pos+n < len(s.src) {
		return s.src[s.pos+n]
	}
	return -1
}

func (s *Scanner) next() rune {
	c := s.peek(0)
	s.pos++
	if c == '\n' {
		s.line++
		s.col = 1
	} else {
		s.col++
	}
	return c
}

var punct = map[rune]TokenType{':': COLON, ';': SEMICOLON, ',': COMMA, '.': DOT, '@': AT, '$': DOLLAR, '#': HASH, '=': EQUALS, '?': QUESTION, '/': SLASH, '\\': BACKSLASH, '!': BANG, '&': AMPERSAND, '*': STAR, '+': PLUS, '-': MINUS, '|': PIPE, '{': OPEN_BRACE, '}': CLOSE_BRACE, '[': OPEN_BRACKET, ']': CLOSE_BRACKET, '(': OPEN_PAREN, ')': CLOSE_PAREN, '<': OPEN_ANGLE, '>': CLOSE_ANGLE}

func (s *Scanner) Scan() Token {
	for {
		c := s.peek(0)
		if c == ' ' || c == '\t' || c == '\r' {
			s.next()
			continue
		}
		break
	}
	t := Token{Line: s.line, Start: s.col}
	c := s.peek(0)
	from := s.pos
	switch {
	case c == -1:
		t.Type = EOF
		return t
	case c == '\n':
		s.next()
		t.Type, t.Text = NEWLINE, "\n"
	case unicode.IsLetter(c) || c == '_':
		for c := s.peek(0); unicode.IsLetter(c) || unicode.IsDigit(c) || c == '_'; c = s.peek(0) {
			s.next()
		}
		t.Type, t.Text = SYMBOL, string(s.src[from:s.pos])
	case unicode.IsDigit(c) || (c == '-' && unicode.IsDigit(s.peek(1))):
		s.next()
		for c := s.peek(0); unicode.IsDigit(c) || c == '.' || c == 'e' || c == 'E' || ((c == '-' || c == '+') && (s.src[s.pos-1] == 'e' || s.src[s.pos-1] == 'E')); c = s.peek(0) {
			s.next()
		}
		t.Type, t.Text = NUMBER, string(s.src[from:s.pos])
	case c == '"':
		s.next()
		for {
			c := s.next()
			if c == -1 || c == '\n' {
				t.Type = ILLEGAL
				if s.pos > len(s.src) {
					s.pos = len(s.src)
				}
				t.Text = string(s.src[from:s.pos])
				return t
			}
			if c == '\\' {
				s.next()
				continue
			}
			if c == '"' {
				break
			}
		}
		if s.pos > len(s.src) {
			s.pos = len(s.src)
		}
		t.Type, t.Text = STRING, string(s.src[from+1:s.pos-1])
	case c == '/' && s.peek(1) == '/':
		for c := s.peek(0); c != -1 && c != '\n'; c = s.peek(0) {
			s.next()
		}
		t.Type, t.Text = LINE_COMMENT, string(s.src[from+2:s.pos])
	case c == '/' && s.peek(1) == '*':
		s.next()
		s.next()
		for c := s.peek(0); c != -1 && !(c == '*' && s.peek(1) == '/'); c = s.peek(0) {
			s.next()
		}
		s.next()
		s.next()
		if s.pos > len(s.src) {
			s.pos = len(s.src)
		}
		t.Type, t.Text = BLOCK_COMMENT, string(s.src[from:s.pos])
	default:
		s.next()
		t.Text = string(c)
		t.Type = ILLEGAL
		if p, ok := punct[c]; ok {
			t.Type = p
		}
	}
	return t
}

type Color string

const (
	RED    Color = "31"
	BLACK  Color = "30"
	GREEN  Color = "32"
	YELLOW Color = "33"
)

func FormattedAnnotation(filename string, source string, prefix string, msg string, tok *Token, color Color, contextSize int) string {
	if tok == nil {
		return fmt.Sprintf("%s%s: %s", prefix, filename, msg)
	}
	line := ""
	if ls := strings.Split(source, "\n"); tok.Line >= 1 && tok.Line <= len(ls) {
		line = ls[tok.Line-1]
	}
	return fmt.Sprintf("%s%s:%d:%d: %s\n%s", prefix, filename, tok.Line, tok.Start, msg, line)
}
