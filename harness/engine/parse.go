package engine

import (
	"fmt"
	"strconv"
	"strings"
)

// Dialect of the statements.
type Dialect int

const (
	MySQL Dialect = iota
	Postgres
)

type expr interface{}

type (
	eCol   struct{ table, name string }
	eParam struct{ n int }
	eLit   struct {
		v     any
		isStr bool
	}
	eTuple struct{ xs []expr }
	eCmp   struct {
		op   string
		l, r expr
	}
	eAnd struct{ l, r expr }
	eOr  struct{ l, r expr }
	eNot struct{ x expr }
	eIn  struct {
		x   expr
		set []expr
		neg bool
	}
	eLike struct {
		x, p expr
		neg  bool
	}
	eBetween struct {
		x, lo, hi expr
		neg       bool
	}
	eIsNull struct {
		x   expr
		neg bool
	}
	eFunc struct {
		name string
		args []expr
	}
	eStar struct{}
)

type assign struct {
	col string
	x   expr
}

type orderItem struct {
	x    expr
	desc bool
}

// eSub is a scalar subquery.
type eSub struct{ st *Stmt }

// Stmt is a parsed statement.
type Stmt struct {
	Kind      string // insert, select, update, delete, create...
	Table     string
	Cols      []string
	Rows      [][]expr
	Ignore    bool
	Conflict  []string // postgres conflict target
	HasConf   bool
	DoNothing bool
	OnDup     []assign
	Returning []expr
	HasRet    bool
	Sel       []expr
	Where     expr
	Group     []expr
	Order     []orderItem
	Limit     *int64
	Offset    *int64
	Lock      string
	Set       []assign
	NParams   int
	MaxParam  int
	ParamUses map[int]int
	Inlined   []string // literals other than LIMIT/OFFSET counts and the constants 0/1 of a constant comparison
}

type parser struct {
	d    Dialect
	toks []token
	p    int
	src  string
	st   *Stmt
}

func (p *parser) peek() token { return p.toks[p.p] }
func (p *parser) next() token { t := p.toks[p.p]; p.p++; return t }
func (p *parser) errf(t token) error {
	x := t.text
	if t.kind == tEOF {
		x = "end of statement"
	}
	return fmt.Errorf("syntax error at or near %q (position %d) in %q", x, t.pos, p.src)
}
func (p *parser) isKw(w string) bool {
	t := p.peek()
	return t.kind == tIdent && strings.EqualFold(t.text, w)
}
func (p *parser) kw(w string) bool {
	if p.isKw(w) {
		p.p++
		return true
	}
	return false
}
func (p *parser) kws(ws ...string) bool {
	save := p.p
	for _, w := range ws {
		if !p.kw(w) {
			p.p = save
			return false
		}
	}
	return true
}
func (p *parser) op(o string) bool {
	t := p.peek()
	if t.kind == tOp && t.text == o {
		p.p++
		return true
	}
	return false
}
func (p *parser) must(o string) error {
	if !p.op(o) {
		return p.errf(p.peek())
	}
	return nil
}
func (p *parser) mustKw(w string) error {
	if !p.kw(w) {
		return p.errf(p.peek())
	}
	return nil
}

// ident returns a canonical identifier
func (p *parser) ident() (string, error) {
	t := p.next()
	switch t.kind {
	case tQuoted:
		if t.text == "" {
			return "", p.errf(t)
		}
		if p.d == MySQL {
			return strings.ToLower(t.text), nil
		}
		return t.text, nil
	case tIdent:
		if reserved[strings.ToLower(t.text)] {
			return "", p.errf(t)
		}
		return strings.ToLower(t.text), nil
	}
	return "", p.errf(t)
}

func (p *parser) tableName() (string, error) {
	n, err := p.ident()
	if err != nil {
		return "", err
	}
	if p.op(".") {
		m, err := p.ident()
		if err != nil {
			return "", err
		}
		return n + "." + m, nil
	}
	return n, nil
}

// Parse parses one statement.
func Parse(d Dialect, src string) (*Stmt, error) {
	toks, err := lex(d, src)
	if err != nil {
		return nil, err
	}
	p := &parser{d: d, toks: toks, src: src, st: &Stmt{ParamUses: map[int]int{}}}
	for _, t := range toks {
		if t.kind == tParam {
			p.st.NParams++
			p.st.ParamUses[t.n]++
			if t.n > p.st.MaxParam {
				p.st.MaxParam = t.n
			}
		}
	}
	if err := p.stmt(); err != nil {
		return nil, err
	}
	p.op(";")
	if p.peek().kind != tEOF {
		return nil, p.errf(p.peek())
	}
	return p.st, nil
}

func (p *parser) identList() ([]string, error) {
	if err := p.must("("); err != nil {
		return nil, err
	}
	var out []string
	for {
		n, err := p.ident()
		if err != nil {
			return nil, err
		}
		out = append(out, n)
		if p.op(",") {
			continue
		}
		return out, p.must(")")
	}
}

func (p *parser) stmt() error {
	st := p.st
	switch {
	case p.kw("insert"):
		st.Kind = "insert"
		if p.d == MySQL && p.kw("ignore") {
			st.Ignore = true
		}
		if err := p.mustKw("into"); err != nil {
			return err
		}
		var err error
		if st.Table, err = p.tableName(); err != nil {
			return err
		}
		if st.Cols, err = p.identList(); err != nil {
			return err
		}
		if err = p.mustKw("values"); err != nil {
			return err
		}
		for {
			if err := p.must("("); err != nil {
				return err
			}
			var row []expr
			for {
				x, err := p.expr()
				if err != nil {
					return err
				}
				row = append(row, x)
				if p.op(",") {
					continue
				}
				break
			}
			if err := p.must(")"); err != nil {
				return err
			}
			st.Rows = append(st.Rows, row)
			if p.op(",") {
				continue
			}
			break
		}
		if p.d == MySQL && p.kw("on") {
			if !p.kws("duplicate", "key", "update") {
				return p.errf(p.peek())
			}
			if st.Ignore {
				return fmt.Errorf("engine: INSERT IGNORE with ON DUPLICATE KEY UPDATE in %q", p.src)
			}
			if st.OnDup, err = p.assigns(); err != nil {
				return err
			}
			st.HasConf = true
		}
		if p.d == Postgres && p.kw("on") {
			if err := p.mustKw("conflict"); err != nil {
				return err
			}
			st.HasConf = true
			if t := p.peek(); t.kind == tOp && t.text == "(" {
				if st.Conflict, err = p.identList(); err != nil {
					return err
				}
			}
			if err := p.mustKw("do"); err != nil {
				return err
			}
			if p.kw("nothing") {
				st.DoNothing = true
			} else {
				if err := p.mustKw("update"); err != nil {
					return err
				}
				if len(st.Conflict) == 0 {
					return fmt.Errorf("ON CONFLICT DO UPDATE requires inference specification in %q", p.src)
				}
				if err := p.mustKw("set"); err != nil {
					return err
				}
				if st.OnDup, err = p.assigns(); err != nil {
					return err
				}
			}
		}
		return p.returning()
	case p.kw("select"):
		st.Kind = "select"
		var err error
		if st.Sel, err = p.selList(); err != nil {
			return err
		}
		if err := p.mustKw("from"); err != nil {
			return err
		}
		if st.Table, err = p.tableName(); err != nil {
			return err
		}
		if p.kw("where") {
			if st.Where, err = p.expr(); err != nil {
				return err
			}
		}
		if p.kws("group", "by") {
			for {
				x, err := p.expr()
				if err != nil {
					return err
				}
				st.Group = append(st.Group, x)
				if !p.op(",") {
					break
				}
			}
		}
		if err := p.orderBy(); err != nil {
			return err
		}
		if err := p.limit(true); err != nil {
			return err
		}
		return p.lock()
	case p.kw("update"):
		st.Kind = "update"
		var err error
		if st.Table, err = p.tableName(); err != nil {
			return err
		}
		if err := p.mustKw("set"); err != nil {
			return err
		}
		if st.Set, err = p.assigns(); err != nil {
			return err
		}
		return p.dmlTail()
	case p.kws("delete", "from"):
		st.Kind = "delete"
		var err error
		if st.Table, err = p.tableName(); err != nil {
			return err
		}
		return p.dmlTail()
	}
	return p.errf(p.peek())
}

func (p *parser) dmlTail() error {
	var err error
	if p.kw("where") {
		if p.st.Where, err = p.expr(); err != nil {
			return err
		}
	}
	if p.d == MySQL {
		if err := p.orderBy(); err != nil {
			return err
		}
		return p.limit(false)
	}
	return p.returning()
}

func (p *parser) returning() error {
	if p.d != Postgres || !p.kw("returning") {
		return nil
	}
	var err error
	p.st.HasRet = true
	p.st.Returning, err = p.selList()
	return err
}

func (p *parser) selList() ([]expr, error) {
	var out []expr
	for {
		if p.op("*") {
			out = append(out, eStar{})
		} else {
			x, err := p.expr()
			if err != nil {
				return nil, err
			}
			out = append(out, x)
		}
		if !p.op(",") {
			return out, nil
		}
	}
}

func (p *parser) orderBy() error {
	if !p.kw("order") {
		return nil
	}
	if err := p.mustKw("by"); err != nil {
		return err
	}
	for {
		x, err := p.expr()
		if err != nil {
			return err
		}
		if tup, ok := x.(eTuple); ok {
			if p.d == MySQL {
				return fmt.Errorf("Operand should contain 1 column(s) in %q", p.src)
			}
			_ = tup
		}
		it := orderItem{x: x}
		if p.kw("desc") {
			it.desc = true
		} else {
			p.kw("asc")
		}
		p.st.Order = append(p.st.Order, it)
		if !p.op(",") {
			return nil
		}
	}
}

func (p *parser) count() (*int64, error) {
	t := p.next()
	if t.kind != tNumber {
		return nil, p.errf(t)
	}
	n, err := strconv.ParseInt(t.text, 10, 64)
	if err != nil {
		if u, e2 := strconv.ParseUint(t.text, 10, 64); e2 == nil && p.d == MySQL {
			_ = u
			n = 1<<63 - 1
		} else {
			return nil, p.errf(t)
		}
	}
	return &n, nil
}

func (p *parser) limit(offset bool) error {
	var err error
	if p.kw("limit") {
		if p.st.Limit, err = p.count(); err != nil {
			return err
		}
	}
	if offset && p.kw("offset") {
		if p.st.Limit == nil && p.d == MySQL {
			return fmt.Errorf("syntax error: OFFSET without LIMIT in %q", p.src)
		}
		if p.st.Offset, err = p.count(); err != nil {
			return err
		}
	}
	return nil
}

func (p *parser) lock() error {
	if !p.kw("for") {
		return nil
	}
	switch {
	case p.kw("update"):
		p.st.Lock = "UPDATE"
	case p.kw("share"):
		p.st.Lock = "SHARE"
	case p.d == Postgres && p.kws("no", "key", "update"):
		p.st.Lock = "NO KEY UPDATE"
	case p.d == Postgres && p.kws("key", "share"):
		p.st.Lock = "KEY SHARE"
	default:
		return p.errf(p.peek())
	}
	return nil
}

func (p *parser) assigns() ([]assign, error) {
	var out []assign
	for {
		n, err := p.ident()
		if err != nil {
			return nil, err
		}
		if err := p.must("="); err != nil {
			return nil, err
		}
		x, err := p.assignValue()
		if err != nil {
			return nil, err
		}
		out = append(out, assign{n, x})
		if !p.op(",") {
			return out, nil
		}
	}
}

func (p *parser) assignValue() (expr, error) {
	if p.d == MySQL && p.isKw("values") {
		p.p++
		if err := p.must("("); err != nil {
			return nil, err
		}
		n, err := p.ident()
		if err != nil {
			return nil, err
		}
		return eCol{"excluded", n}, p.must(")")
	}
	return p.expr()
}

// expression grammar: or > and > not > predicate > primary
func (p *parser) expr() (expr, error) {
	l, err := p.and()
	if err != nil {
		return nil, err
	}
	for p.kw("or") {
		r, err := p.and()
		if err != nil {
			return nil, err
		}
		l = eOr{l, r}
	}
	return l, nil
}

func (p *parser) and() (expr, error) {
	l, err := p.not()
	if err != nil {
		return nil, err
	}
	for p.kw("and") {
		r, err := p.not()
		if err != nil {
			return nil, err
		}
		l = eAnd{l, r}
	}
	return l, nil
}

func (p *parser) not() (expr, error) {
	if p.kw("not") {
		x, err := p.not()
		return eNot{x}, err
	}
	return p.pred()
}

func (p *parser) pred() (expr, error) {
	l, err := p.primary()
	if err != nil {
		return nil, err
	}
	for {
		t := p.peek()
		if t.kind == tOp {
			switch t.text {
			case "=", "<>", "!=", "<", "<=", ">", ">=":
				p.p++
				r, err := p.primary()
				if err != nil {
					return nil, err
				}
				l = eCmp{t.text, l, r}
				continue
			}
			return l, nil
		}
		if p.kw("is") {
			neg := p.kw("not")
			if err := p.mustKw("null"); err != nil {
				return nil, err
			}
			l = eIsNull{l, neg}
			continue
		}
		neg := false
		if p.isKw("not") {
			nt := p.toks[p.p+1]
			if nt.kind != tIdent {
				return l, nil
			}
			switch strings.ToLower(nt.text) {
			case "in", "like", "between":
				p.p++
				neg = true
			default:
				return l, nil
			}
		}
		switch {
		case p.kw("in"):
			if err := p.must("("); err != nil {
				return nil, err
			}
			var set []expr
			for {
				x, err := p.expr()
				if err != nil {
					return nil, err
				}
				set = append(set, x)
				if !p.op(",") {
					break
				}
			}
			if err := p.must(")"); err != nil {
				return nil, err
			}
			l = eIn{l, set, neg}
		case p.kw("like"):
			r, err := p.primary()
			if err != nil {
				return nil, err
			}
			l = eLike{l, r, neg}
		case p.kw("between"):
			lo, err := p.primary()
			if err != nil {
				return nil, err
			}
			if err := p.mustKw("and"); err != nil {
				return nil, err
			}
			hi, err := p.primary()
			if err != nil {
				return nil, err
			}
			l = eBetween{l, lo, hi, neg}
		default:
			return l, nil
		}
	}
}

func (p *parser) primary() (expr, error) {
	t := p.peek()
	switch t.kind {
	case tParam:
		p.p++
		return eParam{t.n}, nil
	case tNumber:
		p.p++
		if t.text != "0" && t.text != "1" {
			p.st.Inlined = append(p.st.Inlined, t.text)
		}
		if n, err := strconv.ParseInt(t.text, 10, 64); err == nil {
			return eLit{v: n}, nil
		}
		f, err := strconv.ParseFloat(t.text, 64)
		if err != nil {
			return nil, p.errf(t)
		}
		return eLit{v: f}, nil
	case tString:
		p.p++
		p.st.Inlined = append(p.st.Inlined, strconv.Quote(t.text))
		return eLit{v: t.text, isStr: true}, nil
	case tOp:
		if t.text == "(" {
			p.p++
			if p.isKw("select") {
				outer := p.st
				p.st = &Stmt{ParamUses: map[int]int{}}
				err := p.stmt()
				sub := p.st
				p.st = outer
				p.st.Inlined = append(p.st.Inlined, sub.Inlined...)
				if err != nil {
					return nil, err
				}
				return eSub{sub}, p.must(")")
			}
			x, err := p.expr()
			if err != nil {
				return nil, err
			}
			if p.op(",") {
				xs := []expr{x}
				for {
					y, err := p.expr()
					if err != nil {
						return nil, err
					}
					xs = append(xs, y)
					if !p.op(",") {
						break
					}
				}
				return eTuple{xs}, p.must(")")
			}
			return x, p.must(")")
		}
		return nil, p.errf(t)
	case tIdent:
		low := strings.ToLower(t.text)
		switch low {
		case "null":
			p.p++
			return eLit{}, nil
		case "true", "false":
			p.p++
			return eLit{v: low == "true"}, nil
		}
		// function call
		if nt := p.toks[p.p+1]; nt.kind == tOp && nt.text == "(" && !reserved[low] {
			p.p += 2
			f := eFunc{name: low}
			if p.op(")") {
				return f, nil
			}
			if p.op("*") {
				f.args = append(f.args, eStar{})
				return f, p.must(")")
			}
			for {
				x, err := p.funcArg()
				if err != nil {
					return nil, err
				}
				f.args = append(f.args, x)
				if !p.op(",") {
					break
				}
			}
			return f, p.must(")")
		}
		fallthrough
	case tQuoted:
		n, err := p.ident()
		if err != nil {
			return nil, err
		}
		if p.op(".") {
			m, err := p.ident()
			if err != nil {
				return nil, err
			}
			return eCol{n, m}, nil
		}
		return eCol{"", n}, nil
	}
	return nil, p.errf(t)
}

// funcArg allows literal arguments of functions (they come from the configuration, not from data)
func (p *parser) funcArg() (expr, error) {
	n := len(p.st.Inlined)
	t := p.peek()
	x, err := p.expr()
	if t.kind == tNumber || t.kind == tString {
		p.st.Inlined = p.st.Inlined[:n]
	}
	return x, err
}
