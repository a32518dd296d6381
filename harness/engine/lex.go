// Package engine is a small, strict, in-memory SQL database with a database/sql driver.
// It stands in for MySQL and PostgreSQL, of which there is no server in the sandbox: it accepts
// only the grammar those servers accept for the statements used here (reserved words, quoting
// style, placeholder style and numbering, clause order, upsert syntax) and executes it.
package engine

import (
	"fmt"
	"strings"
	"unicode"
)

type tokKind int

const (
	tEOF tokKind = iota
	tIdent
	tQuoted // quoted identifier
	tString
	tNumber
	tParam
	tOp
)

type token struct {
	kind tokKind
	text string
	n    int // parameter number
	pos  int
}

var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`select from where order group by limit offset insert update delete set values
		and or not in like is null between into key index table desc asc on conflict do nothing returning for
		ignore duplicate primary unique create drop user having union join left right inner outer as distinct
		case when then else end exists all any check default references foreign constraint to with`) {
		reserved[w] = true
	}
	// these are not reserved in the servers
	for _, w := range []string{"conflict", "do", "nothing", "offset", "duplicate", "ignore", "key", "user", "returning", "index", "unique"} {
		delete(reserved, w)
	}
}

type lexer struct {
	d      Dialect
	s      string
	i      int
	nparam int
	toks   []token
}

func lex(d Dialect, s string) ([]token, error) {
	l := &lexer{d: d, s: s}
	for {
		for l.i < len(l.s) && (l.s[l.i] == ' ' || l.s[l.i] == '\n' || l.s[l.i] == '\t' || l.s[l.i] == '\r') {
			l.i++
		}
		if l.i >= len(l.s) {
			l.toks = append(l.toks, token{kind: tEOF, pos: l.i})
			return l.toks, nil
		}
		c := l.s[l.i]
		start := l.i
		switch {
		case c == '_' || c >= 0x80 || unicode.IsLetter(rune(c)):
			for l.i < len(l.s) && (l.s[l.i] == '_' || l.s[l.i] >= 0x80 || unicode.IsLetter(rune(l.s[l.i])) || unicode.IsDigit(rune(l.s[l.i]))) {
				l.i++
			}
			l.toks = append(l.toks, token{kind: tIdent, text: l.s[start:l.i], pos: start})
		case unicode.IsDigit(rune(c)):
			for l.i < len(l.s) && (unicode.IsDigit(rune(l.s[l.i])) || l.s[l.i] == '.') {
				l.i++
			}
			l.toks = append(l.toks, token{kind: tNumber, text: l.s[start:l.i], pos: start})
		case c == '`' || c == '"':
			isIdent := (c == '`' && l.d == MySQL) || (c == '"' && l.d == Postgres)
			if c == '`' && l.d == Postgres {
				return nil, fmt.Errorf("syntax error at or near \"`\" (position %d) in %q", start, s)
			}
			text, err := l.quoted(c)
			if err != nil {
				return nil, err
			}
			if isIdent {
				l.toks = append(l.toks, token{kind: tQuoted, text: text, pos: start})
			} else {
				l.toks = append(l.toks, token{kind: tString, text: text, pos: start})
			}
		case c == '\'':
			text, err := l.quoted(c)
			if err != nil {
				return nil, err
			}
			l.toks = append(l.toks, token{kind: tString, text: text, pos: start})
		case c == '?':
			if l.d != MySQL {
				return nil, fmt.Errorf("syntax error at or near %q (position %d) in %q", "?", start, s)
			}
			l.i++
			l.nparam++
			l.toks = append(l.toks, token{kind: tParam, text: "?", n: l.nparam, pos: start})
		case c == '$':
			if l.d != Postgres {
				return nil, fmt.Errorf("syntax error at or near %q (position %d) in %q", "$", start, s)
			}
			l.i++
			n := 0
			digits := 0
			for l.i < len(l.s) && l.s[l.i] >= '0' && l.s[l.i] <= '9' {
				n = n*10 + int(l.s[l.i]-'0')
				l.i++
				digits++
			}
			if digits == 0 || n == 0 {
				return nil, fmt.Errorf("syntax error at or near \"$\" (position %d) in %q", start, s)
			}
			l.toks = append(l.toks, token{kind: tParam, text: l.s[start:l.i], n: n, pos: start})
		default:
			two := ""
			if l.i+1 < len(l.s) {
				two = l.s[l.i : l.i+2]
			}
			switch two {
			case "<>", "<=", ">=", "!=", "::":
				l.i += 2
				l.toks = append(l.toks, token{kind: tOp, text: two, pos: start})
				continue
			}
			switch c {
			case '(', ')', ',', '=', '<', '>', '*', '.', ';', '+', '-':
				l.i++
				l.toks = append(l.toks, token{kind: tOp, text: string(c), pos: start})
			default:
				return nil, fmt.Errorf("syntax error at or near %q (position %d) in %q", string(c), start, s)
			}
		}
	}
}

func (l *lexer) quoted(q byte) (string, error) {
	start := l.i
	l.i++
	var b strings.Builder
	for l.i < len(l.s) {
		c := l.s[l.i]
		if c == '\\' && q == '\'' && l.d == MySQL && l.i+1 < len(l.s) {
			b.WriteByte(l.s[l.i+1])
			l.i += 2
			continue
		}
		if c == q {
			if l.i+1 < len(l.s) && l.s[l.i+1] == q {
				b.WriteByte(q)
				l.i += 2
				continue
			}
			l.i++
			return b.String(), nil
		}
		b.WriteByte(c)
		l.i++
	}
	return "", fmt.Errorf("unterminated quoted token at position %d in %q", start, l.s)
}
