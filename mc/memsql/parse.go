// Package memsql is a small in-memory SQL engine with MySQL/InnoDB-like
// transaction semantics, served through database/sql/driver so that the real
// gorm MySQL dialector can run on top of it.  It is the environment model of
// the model checker: every statement is a scheduling point, may be failed, and
// all blocking (row locks) is visible to the scheduler.
package memsql

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
)

// ErrUnsupported is raised (as a panic value, recovered at the driver) when the
// SQL lies outside what the engine models.
type ErrUnsupported struct{ Msg string }

func (e ErrUnsupported) Error() string { return "memsql: unsupported: " + e.Msg }

func unsupported(f string, a ...interface{}) { panic(ErrUnsupported{fmt.Sprintf(f, a...)}) }

type tokKind int

const (
	tEOF tokKind = iota
	tIdent
	tQIdent
	tNum
	tStr
	tOp
	tParam
)

type token struct {
	k tokKind
	s string
	u string // upper case (idents)
}

func lex(s string) []token {
	var out []token
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-' || c == '#':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				unsupported("unterminated comment")
			}
			i += j + 4
		case c == '`':
			j := i + 1
			for j < len(s) && s[j] != '`' {
				j++
			}
			if j >= len(s) {
				unsupported("unterminated identifier in %q", s)
			}
			out = append(out, token{tQIdent, s[i+1 : j], ""})
			i = j + 1
		case c == '\'' || c == '"':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(s) {
					unsupported("unterminated string in %q", s)
				}
				if s[j] == '\\' && j+1 < len(s) {
					switch s[j+1] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					case '0':
						b.WriteByte(0)
					case '%', '_':
						b.WriteByte('\\')
						b.WriteByte(s[j+1])
					default:
						b.WriteByte(s[j+1])
					}
					j += 2
					continue
				}
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						b.WriteByte(c)
						j += 2
						continue
					}
					break
				}
				b.WriteByte(s[j])
				j++
			}
			out = append(out, token{tStr, b.String(), ""})
			i = j + 1
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.' || s[j] == 'e' || s[j] == 'E' || (s[j] == '-' || s[j] == '+') && j > i && (s[j-1] == 'e' || s[j-1] == 'E')) {
				j++
			}
			out = append(out, token{tNum, s[i:j], ""})
			i = j
		case c == '?':
			out = append(out, token{tParam, "?", ""})
			i++
		case c == '_' || c == '@' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '@' || s[j] == '$' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9' || s[j] >= 0x80) {
				j++
			}
			out = append(out, token{tIdent, s[i:j], strings.ToUpper(s[i:j])})
			i = j
		default:
			for _, op := range []string{"<=>", "<>", "!=", "<=", ">=", "||", "&&", ":=", "<<", ">>"} {
				if strings.HasPrefix(s[i:], op) {
					out = append(out, token{tOp, op, op})
					i += len(op)
					goto next
				}
			}
			if !strings.ContainsRune("(),.*=<>+-/%;!|&^~", rune(c)) {
				unsupported("character %q in %q", c, s)
			}
			out = append(out, token{tOp, string(c), string(c)})
			i++
		next:
		}
	}
	return append(out, token{tEOF, "", ""})
}

// ---- AST ----

type expr interface{}

type (
	eLit   struct{ v Value }
	eParam struct{ i int }
	eCol   struct{ tbl, name string }
	eStar  struct{ tbl string }
	eBin   struct {
		op   string
		l, r expr
	}
	eUn struct {
		op string
		x  expr
	}
	eIn struct {
		x    expr
		list []expr
		sub  *selectStmt
		not  bool
	}
	eRow     struct{ xs []expr }
	eBetween struct {
		x, lo, hi expr
		not       bool
	}
	eLike struct {
		x, p expr
		not  bool
	}
	eIsNull struct {
		x   expr
		not bool
	}
	eIsBool struct {
		x    expr
		want bool
		not  bool
	}
	eFunc struct {
		name     string
		args     []expr
		distinct bool
		star     bool
	}
	eCase struct {
		x     expr
		whens [][2]expr
		els   expr
	}
	eSub      struct{ s *selectStmt }
	eExists   struct{ s *selectStmt }
	eDefault  struct{}
	eInterval struct {
		n    expr
		unit string
	}
)

type selItem struct {
	e     expr
	alias string
	text  string
}

type tableRef struct {
	name, alias string
	sub         *selectStmt
	join        string // "", "inner", "left", "cross"
	on          expr
}

type orderItem struct {
	e    expr
	desc bool
}

type selectStmt struct {
	distinct bool
	items    []selItem
	from     []tableRef
	where    expr
	group    []expr
	having   expr
	order    []orderItem
	limit    expr
	offset   expr
	lock     bool
	nowait   bool
	share    bool
	skip     bool
}

type assign struct {
	col string
	e   expr
}

type insertStmt struct {
	table   string
	cols    []string
	rows    [][]expr
	sel     *selectStmt
	ignore  bool
	replace bool
	onDup   []assign
}

type updateStmt struct {
	table, alias string
	set          []assign
	where        expr
	order        []orderItem
	limit        expr
}

type deleteStmt struct {
	table, alias string
	where        expr
	order        []orderItem
	limit        expr
}

type simpleStmt struct {
	op  string // begin commit rollback savepoint rollbackto release set
	arg string
}

type stmt struct {
	node    interface{}
	nparams int
}

type parser struct {
	t   []token
	p   int
	n   int
	sql string
}

var (
	astMu    sync.Mutex
	astCache = map[string]*stmt{}
)

func parse(sql string) *stmt {
	astMu.Lock()
	s := astCache[sql]
	astMu.Unlock()
	if s != nil {
		return s
	}
	p := &parser{t: lex(sql), sql: sql}
	s = &stmt{node: p.statement()}
	p.acceptOp(";")
	if p.cur().k != tEOF {
		p.fail()
	}
	s.nparams = p.n
	astMu.Lock()
	if len(astCache) > 20000 {
		astCache = map[string]*stmt{}
	}
	astCache[sql] = s
	astMu.Unlock()
	return s
}

func (p *parser) cur() token { return p.t[p.p] }
func (p *parser) peek(n int) token {
	if p.p+n < len(p.t) {
		return p.t[p.p+n]
	}
	return token{}
}
func (p *parser) fail() { unsupported("cannot parse %q near token %d %q", p.sql, p.p, p.cur().s) }
func (p *parser) isKw(k string) bool {
	return p.cur().k == tIdent && p.cur().u == k
}
func (p *parser) accept(ks ...string) bool {
	for i, k := range ks {
		t := p.peek(i)
		if t.k != tIdent || t.u != k {
			return false
		}
	}
	p.p += len(ks)
	return true
}
func (p *parser) expect(ks ...string) {
	if !p.accept(ks...) {
		p.fail()
	}
}
func (p *parser) isOp(o string) bool { return p.cur().k == tOp && p.cur().s == o }
func (p *parser) acceptOp(o string) bool {
	if p.isOp(o) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expectOp(o string) {
	if !p.acceptOp(o) {
		p.fail()
	}
}
func (p *parser) ident() string {
	t := p.cur()
	if t.k != tIdent && t.k != tQIdent {
		p.fail()
	}
	p.p++
	return t.s
}

func (p *parser) tableName() string {
	n := p.ident()
	if p.acceptOp(".") {
		n = p.ident()
	}
	return n
}

func (p *parser) statement() interface{} {
	switch {
	case p.isKw("SELECT") || p.isOp("("):
		return p.selectStmt()
	case p.isKw("INSERT") || p.isKw("REPLACE"):
		return p.insert()
	case p.isKw("UPDATE"):
		return p.update()
	case p.isKw("DELETE"):
		return p.delete()
	case p.accept("BEGIN"), p.accept("START", "TRANSACTION"):
		return &simpleStmt{op: "begin"}
	case p.accept("COMMIT"):
		return &simpleStmt{op: "commit"}
	case p.accept("SAVEPOINT"):
		return &simpleStmt{op: "savepoint", arg: p.ident()}
	case p.accept("RELEASE", "SAVEPOINT"):
		return &simpleStmt{op: "release", arg: p.ident()}
	case p.accept("ROLLBACK"):
		if p.accept("TO") {
			p.accept("SAVEPOINT")
			return &simpleStmt{op: "rollbackto", arg: p.ident()}
		}
		return &simpleStmt{op: "rollback"}
	case p.accept("SET"):
		for p.cur().k != tEOF {
			p.p++
		}
		return &simpleStmt{op: "set"}
	}
	p.fail()
	return nil
}

var reserved = map[string]bool{"SELECT": true, "FROM": true, "WHERE": true, "GROUP": true, "HAVING": true, "ORDER": true, "LIMIT": true, "FOR": true, "ON": true, "JOIN": true, "INNER": true, "LEFT": true, "CROSS": true, "RIGHT": true, "SET": true, "AND": true, "OR": true, "LOCK": true, "UNION": true, "AS": true, "OFFSET": true, "USING": true, "VALUES": true, "VALUE": true, "ASC": true, "DESC": true, "USE": true, "FORCE": true, "IGNORE": true, "STRAIGHT_JOIN": true, "NATURAL": true}

func (p *parser) alias() string {
	if p.accept("AS") {
		if p.cur().k == tStr {
			s := p.cur().s
			p.p++
			return s
		}
		return p.ident()
	}
	if p.cur().k == tQIdent || p.cur().k == tIdent && !reserved[p.cur().u] {
		return p.ident()
	}
	return ""
}

func (p *parser) tableRef() tableRef {
	if p.acceptOp("(") {
		s := p.selectStmt()
		p.expectOp(")")
		return tableRef{sub: s, alias: p.alias()}
	}
	r := tableRef{name: p.tableName()}
	r.alias = p.alias()
	for p.isKw("USE") || p.isKw("FORCE") || p.isKw("IGNORE") { // index hints do not change results
		p.p++
		if !p.accept("INDEX") {
			p.expect("KEY")
		}
		p.expectOp("(")
		for !p.acceptOp(")") {
			p.p++
			if p.cur().k == tEOF {
				p.fail()
			}
		}
	}
	if r.alias == "" {
		r.alias = r.name
	}
	return r
}

func (p *parser) selectStmt() *selectStmt {
	if p.acceptOp("(") {
		s := p.selectStmt()
		p.expectOp(")")
		return s
	}
	p.expect("SELECT")
	s := &selectStmt{}
	if p.accept("DISTINCT") {
		s.distinct = true
	}
	for {
		start := p.p
		it := selItem{}
		if p.isOp("*") {
			p.p++
			it.e = &eStar{}
		} else if (p.cur().k == tIdent || p.cur().k == tQIdent) && p.peek(1).s == "." && p.peek(2).k == tOp && p.peek(2).s == "*" {
			it.e = &eStar{tbl: p.cur().s}
			p.p += 3
		} else {
			it.e = p.expr()
			var b strings.Builder
			for _, t := range p.t[start:p.p] {
				b.WriteString(t.s)
			}
			it.text = b.String()
			it.alias = p.alias()
		}
		s.items = append(s.items, it)
		if !p.acceptOp(",") {
			break
		}
	}
	if p.accept("FROM") {
		s.from = append(s.from, p.tableRef())
		for {
			if p.acceptOp(",") {
				r := p.tableRef()
				r.join = "cross"
				s.from = append(s.from, r)
				continue
			}
			kind := ""
			switch {
			case p.accept("INNER", "JOIN"), p.accept("JOIN"):
				kind = "inner"
			case p.accept("CROSS", "JOIN"):
				kind = "cross"
			case p.accept("LEFT", "OUTER", "JOIN"), p.accept("LEFT", "JOIN"):
				kind = "left"
			}
			if kind == "" {
				break
			}
			r := p.tableRef()
			r.join = kind
			if p.accept("ON") {
				r.on = p.expr()
			}
			s.from = append(s.from, r)
		}
	}
	if p.accept("WHERE") {
		s.where = p.expr()
	}
	if p.accept("GROUP", "BY") {
		for {
			s.group = append(s.group, p.expr())
			if !p.acceptOp(",") {
				break
			}
		}
	}
	if p.accept("HAVING") {
		s.having = p.expr()
	}
	s.order = p.orderBy()
	s.limit, s.offset = p.limitClause()
	for {
		if p.accept("FOR") {
			if !p.accept("UPDATE") {
				p.expect("SHARE")
				s.share = true
			}
			s.lock = true
			if p.accept("OF") {
				for {
					p.ident()
					if !p.acceptOp(",") {
						break
					}
				}
			}
			if p.accept("NOWAIT") {
				s.nowait = true
			} else if p.accept("SKIP", "LOCKED") {
				s.skip = true
			}
			continue
		}
		if p.accept("LOCK", "IN", "SHARE", "MODE") {
			s.lock, s.share = true, true
			continue
		}
		break
	}
	if p.isKw("UNION") {
		unsupported("UNION")
	}
	return s
}

func (p *parser) orderBy() []orderItem {
	var out []orderItem
	if !p.accept("ORDER", "BY") {
		return nil
	}
	for {
		o := orderItem{e: p.expr()}
		if p.accept("DESC") {
			o.desc = true
		} else {
			p.accept("ASC")
		}
		out = append(out, o)
		if !p.acceptOp(",") {
			return out
		}
	}
}

func (p *parser) limitClause() (lim, off expr) {
	if p.accept("LIMIT") {
		lim = p.expr()
		if p.acceptOp(",") {
			off = lim
			lim = p.expr()
		} else if p.accept("OFFSET") {
			off = p.expr()
		}
	} else if p.accept("OFFSET") {
		off = p.expr()
	}
	return
}

func (p *parser) insert() *insertStmt {
	s := &insertStmt{}
	if p.accept("REPLACE") {
		s.replace = true
	} else {
		p.expect("INSERT")
		if p.accept("IGNORE") {
			s.ignore = true
		}
	}
	p.accept("INTO")
	s.table = p.tableName()
	if p.acceptOp("(") {
		if !p.acceptOp(")") {
			for {
				c := p.ident()
				if p.acceptOp(".") {
					c = p.ident()
				}
				s.cols = append(s.cols, c)
				if !p.acceptOp(",") {
					break
				}
			}
			p.expectOp(")")
		}
	}
	switch {
	case p.accept("VALUES"), p.accept("VALUE"):
		for {
			p.expectOp("(")
			var row []expr
			if !p.acceptOp(")") {
				for {
					row = append(row, p.expr())
					if !p.acceptOp(",") {
						break
					}
				}
				p.expectOp(")")
			}
			s.rows = append(s.rows, row)
			if !p.acceptOp(",") {
				break
			}
		}
	case p.isKw("SELECT") || p.isOp("("):
		s.sel = p.selectStmt()
	case p.accept("SET"):
		var row []expr
		for _, a := range p.assigns() {
			s.cols = append(s.cols, a.col)
			row = append(row, a.e)
		}
		s.rows = [][]expr{row}
	default:
		p.fail()
	}
	if p.accept("ON", "DUPLICATE", "KEY", "UPDATE") {
		s.onDup = p.assigns()
	}
	return s
}

func (p *parser) assigns() []assign {
	var out []assign
	for {
		c := p.ident()
		if p.acceptOp(".") {
			c = p.ident()
		}
		p.expectOp("=")
		out = append(out, assign{c, p.expr()})
		if !p.acceptOp(",") {
			return out
		}
	}
}

func (p *parser) update() *updateStmt {
	p.expect("UPDATE")
	s := &updateStmt{table: p.tableName()}
	s.alias = p.alias()
	if s.alias == "" {
		s.alias = s.table
	}
	p.expect("SET")
	s.set = p.assigns()
	if p.accept("WHERE") {
		s.where = p.expr()
	}
	s.order = p.orderBy()
	s.limit, _ = p.limitClause()
	return s
}

func (p *parser) delete() *deleteStmt {
	p.expect("DELETE", "FROM")
	s := &deleteStmt{table: p.tableName()}
	s.alias = p.alias()
	if s.alias == "" {
		s.alias = s.table
	}
	if p.accept("WHERE") {
		s.where = p.expr()
	}
	s.order = p.orderBy()
	s.limit, _ = p.limitClause()
	return s
}

// precedence: OR < XOR < AND < NOT < comparison < | & shift < + - < * / % < unary
func (p *parser) expr() expr { return p.or() }

func (p *parser) or() expr {
	l := p.and()
	for p.accept("OR") || p.acceptOp("||") {
		l = &eBin{"OR", l, p.and()}
	}
	return l
}

func (p *parser) and() expr {
	l := p.not()
	for p.accept("AND") || p.acceptOp("&&") {
		l = &eBin{"AND", l, p.not()}
	}
	return l
}

func (p *parser) not() expr {
	if p.accept("NOT") {
		return &eUn{"NOT", p.not()}
	}
	return p.cmp()
}

func (p *parser) cmp() expr {
	l := p.add()
	for {
		if p.cur().k == tOp {
			switch p.cur().s {
			case "=", "<>", "!=", "<", ">", "<=", ">=", "<=>":
				op := p.cur().s
				p.p++
				if op == "!=" {
					op = "<>"
				}
				l = &eBin{op, l, p.add()}
				continue
			}
		}
		not := false
		if p.isKw("NOT") {
			n := p.peek(1).u
			if n == "IN" || n == "LIKE" || n == "BETWEEN" {
				p.p++
				not = true
			}
		}
		switch {
		case p.accept("IS"):
			n := p.accept("NOT")
			switch {
			case p.accept("NULL"):
				l = &eIsNull{l, n}
			case p.accept("TRUE"):
				l = &eIsBool{l, true, n}
			case p.accept("FALSE"):
				l = &eIsBool{l, false, n}
			default:
				p.fail()
			}
			continue
		case p.accept("IN"):
			if p.cur().k == tParam { // "IN ?" expanded by gorm to (?,?)
				unsupported("IN ?")
			}
			p.expectOp("(")
			e := &eIn{x: l, not: not}
			if p.isKw("SELECT") {
				e.sub = p.selectStmt()
			} else {
				for {
					e.list = append(e.list, p.expr())
					if !p.acceptOp(",") {
						break
					}
				}
			}
			p.expectOp(")")
			l = e
			continue
		case p.accept("LIKE"):
			l = &eLike{l, p.add(), not}
			continue
		case p.accept("BETWEEN"):
			lo := p.add()
			p.expect("AND")
			l = &eBetween{l, lo, p.add(), not}
			continue
		}
		return l
	}
}

func (p *parser) add() expr {
	l := p.mul()
	for p.isOp("+") || p.isOp("-") {
		op := p.cur().s
		p.p++
		if p.accept("INTERVAL") {
			n := p.expr()
			l = &eBin{op + "I", l, &eInterval{n, strings.ToUpper(p.ident())}}
			continue
		}
		l = &eBin{op, l, p.mul()}
	}
	return l
}

func (p *parser) mul() expr {
	l := p.unary()
	for p.isOp("*") || p.isOp("/") || p.isOp("%") || p.isKw("DIV") || p.isKw("MOD") {
		op := strings.ToUpper(p.cur().s)
		p.p++
		if op == "MOD" {
			op = "%"
		}
		l = &eBin{op, l, p.unary()}
	}
	return l
}

func (p *parser) unary() expr {
	if p.acceptOp("-") {
		return &eUn{"-", p.unary()}
	}
	if p.acceptOp("+") {
		return p.unary()
	}
	if p.acceptOp("!") {
		return &eUn{"NOT", p.unary()}
	}
	return p.primary()
}

func (p *parser) primary() expr {
	t := p.cur()
	switch t.k {
	case tNum:
		p.p++
		if strings.ContainsAny(t.s, ".eE") {
			f, err := strconv.ParseFloat(t.s, 64)
			if err != nil {
				p.fail()
			}
			return &eLit{f}
		}
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			p.fail()
		}
		return &eLit{n}
	case tStr:
		p.p++
		return &eLit{t.s}
	case tParam:
		p.p++
		p.n++
		return &eParam{p.n - 1}
	case tOp:
		if t.s == "(" {
			p.p++
			if p.isKw("SELECT") {
				s := p.selectStmt()
				p.expectOp(")")
				return &eSub{s}
			}
			e := p.expr()
			if p.isOp(",") {
				r := &eRow{xs: []expr{e}}
				for p.acceptOp(",") {
					r.xs = append(r.xs, p.expr())
				}
				p.expectOp(")")
				return r
			}
			p.expectOp(")")
			return e
		}
		p.fail()
	case tIdent:
		switch t.u {
		case "NULL":
			p.p++
			return &eLit{nil}
		case "TRUE":
			p.p++
			return &eLit{int64(1)}
		case "FALSE":
			p.p++
			return &eLit{int64(0)}
		case "DEFAULT":
			p.p++
			return &eDefault{}
		case "BINARY":
			p.p++
			return p.unary()
		case "EXISTS":
			p.p++
			p.expectOp("(")
			s := p.selectStmt()
			p.expectOp(")")
			return &eExists{s}
		case "INTERVAL":
			if p.peek(1).s != "(" {
				p.p++
				n := p.expr()
				return &eInterval{n, strings.ToUpper(p.ident())}
			}
		case "CASE":
			p.p++
			c := &eCase{}
			if !p.isKw("WHEN") {
				c.x = p.expr()
			}
			for p.accept("WHEN") {
				w := p.expr()
				p.expect("THEN")
				c.whens = append(c.whens, [2]expr{w, p.expr()})
			}
			if p.accept("ELSE") {
				c.els = p.expr()
			}
			p.expect("END")
			return c
		case "CURRENT_TIMESTAMP":
			if p.peek(1).s != "(" {
				p.p++
				return &eFunc{name: "NOW"}
			}
		case "SELECT", "FROM", "WHERE":
			p.fail()
		case "KEY", "ORDER", "GROUP", "INDEX", "LIMIT", "DESC", "CONDITION", "READ":
			// reserved words name a column only when quoted
			panic(myErr(1064, "You have an error in your SQL syntax near '%s'", t.s))
		}
		if p.peek(1).k == tOp && p.peek(1).s == "(" {
			p.p += 2
			f := &eFunc{name: t.u}
			if p.acceptOp("*") {
				f.star = true
				p.expectOp(")")
				return f
			}
			if p.accept("DISTINCT") {
				f.distinct = true
			}
			if !p.acceptOp(")") {
				for {
					f.args = append(f.args, p.expr())
					if p.accept("AS") { // CAST(x AS type)
						f.args = append(f.args, &eLit{p.castType()})
						break
					}
					if !p.acceptOp(",") {
						break
					}
				}
				p.expectOp(")")
			}
			return f
		}
		fallthrough
	case tQIdent:
		p.p++
		if p.isOp(".") {
			p.p++
			c := p.ident()
			if p.acceptOp(".") {
				return &eCol{c, p.ident()}
			}
			return &eCol{t.s, c}
		}
		return &eCol{"", t.s}
	}
	p.fail()
	return nil
}

func (p *parser) castType() string {
	s := strings.ToUpper(p.ident())
	if p.acceptOp("(") {
		for !p.acceptOp(")") {
			p.p++
		}
	}
	return s
}
