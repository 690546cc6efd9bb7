package memsql

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/go-sql-driver/mysql"
)

// Value is nil, int64, float64, string or time.Time.
type Value = interface{}

type colKind int

const (
	kInt colKind = iota
	kFloat
	kString
	kBlob
	kTime
)

type Column struct {
	Name     string
	Kind     colKind
	Type     string // sql type as declared
	MaxChars int
	MaxBytes int
	Min, Max int64
	Prec     int // fractional seconds
	NotNull  bool
	AutoInc  bool
	HasDef   bool
	Def      Value
}

type unique struct {
	name string
	cols []int
}

type Table struct {
	Name    string
	Cols    []*Column
	PK      []int
	uniques []unique
	rows    []*row
	nextID  int64
	nextRow int64
	byName  map[string]int
}

type version struct {
	ts   int64
	vals []Value // nil = deleted
}

type pend struct {
	tx   *txn
	vals []Value // nil = deleted
}

type waiter struct {
	tx  *txn
	ch  chan struct{}
	res int // 0 waiting 1 granted 2 aborted
	sh  bool
}

type row struct {
	id    int64
	tbl   *Table
	vers  []version
	pend  *pend
	owner *txn          // exclusive lock
	share map[*txn]bool // shared locks
	waitq []*waiter
}

// held tells whether a transaction other than t has a lock that conflicts.
func (r *row) held(t *txn, sh bool) bool {
	if r.owner != nil && r.owner != t {
		return true
	}
	if !sh {
		for o := range r.share {
			if o != t {
				return true
			}
		}
	}
	return false
}

func (r *row) give(t *txn, sh bool) {
	if sh {
		if r.share == nil {
			r.share = map[*txn]bool{}
		}
		r.share[t] = true
	} else {
		r.owner = t
	}
	t.locks[r] = true
}

// waitsFor tells whether waiting for r (in the given mode) means waiting for t.
func (r *row) waitsFor(from, t *txn, sh bool, seen map[*txn]bool) bool {
	via := func(o *txn) bool {
		if o == nil || o == from || seen[o] {
			return false
		}
		if o == t {
			return true
		}
		seen[o] = true
		return o.waiting != nil && o.waiting.waitsFor(o, t, o.waitSh, seen)
	}
	if via(r.owner) {
		return true
	}
	if !sh {
		for o := range r.share {
			if via(o) {
				return true
			}
		}
	}
	return false
}

type undo struct {
	r    *row
	prev *pend
	new  bool
}

type txn struct {
	db       *DB
	id       int64
	implicit bool
	snap     int64 // 0 = no read view yet
	rc       bool  // READ COMMITTED
	undo     []undo
	saves    []savepoint
	locks    map[*row]bool
	waiting  *row
	waitSh   bool
	done     bool
	hasWrite bool
	proc     *Proc
}

type savepoint struct {
	name string
	n    int
}

// DB is one database.
type DB struct {
	mu       sync.Mutex
	tables   map[string]*Table
	ts       int64
	txid     int64
	active   map[*txn]bool
	LockWait time.Duration

	Hooks Hooks

	unsupMu sync.Mutex
	unsup   string
}

func New() *DB {
	return &DB{tables: map[string]*Table{}, active: map[*txn]bool{}, LockWait: 50 * time.Second}
}

// Unsupported returns the first statement the engine could not model ("" if none).
func (d *DB) Unsupported() string {
	d.unsupMu.Lock()
	defer d.unsupMu.Unlock()
	return d.unsup
}

func (d *DB) noteUnsupported(s string) {
	d.unsupMu.Lock()
	defer d.unsupMu.Unlock()
	if d.unsup == "" {
		d.unsup = s
	}
}

func myErr(n uint16, f string, a ...interface{}) error {
	return &mysql.MySQLError{Number: n, Message: fmt.Sprintf(f, a...)}
}

func (d *DB) table(name string) *Table {
	t := d.tables[strings.ToLower(name)]
	if t == nil {
		panic(myErr(1146, "Table '%s' doesn't exist", name))
	}
	return t
}

func (t *Table) col(name string) int {
	if i, ok := t.byName[strings.ToLower(name)]; ok {
		return i
	}
	return -1
}

func (t *Table) mustCol(name string) int {
	i := t.col(name)
	if i < 0 {
		panic(myErr(1054, "Unknown column '%s' in 'field list'", name))
	}
	return i
}

// ---- transactions ----

func (d *DB) begin(p *Proc, implicit bool) *txn {
	d.txid++
	t := &txn{db: d, id: d.txid, implicit: implicit, locks: map[*row]bool{}, proc: p}
	d.active[t] = true
	return t
}

func (t *txn) readTS() int64 {
	if t.rc {
		return t.db.ts
	}
	if t.snap == 0 {
		t.snap = t.db.ts + 1 // store ts+1 so that 0 means unset
	}
	return t.snap - 1
}

func (r *row) committed(ts int64) []Value {
	for i := len(r.vers) - 1; i >= 0; i-- {
		if r.vers[i].ts <= ts {
			return r.vers[i].vals
		}
	}
	return nil
}

func (r *row) latest() []Value {
	if len(r.vers) == 0 {
		return nil
	}
	return r.vers[len(r.vers)-1].vals
}

// visible version for a consistent read
func (r *row) snapshot(t *txn, ts int64) []Value {
	if r.pend != nil && r.pend.tx == t {
		return r.pend.vals
	}
	return r.committed(ts)
}

// version for a current read
func (r *row) current(t *txn) []Value {
	if r.pend != nil && r.pend.tx == t {
		return r.pend.vals
	}
	return r.latest()
}

func (d *DB) commit(t *txn) {
	if t.done {
		return
	}
	wrote := false
	for _, u := range t.undo {
		if u.r.pend != nil && u.r.pend.tx == t {
			wrote = true
		}
	}
	if wrote {
		d.ts++
		for _, u := range t.undo {
			r := u.r
			if r.pend != nil && r.pend.tx == t {
				r.vers = append(r.vers, version{d.ts, r.pend.vals})
				r.pend = nil
			}
		}
	}
	d.finish(t)
}

func (d *DB) rollback(t *txn) {
	if t.done {
		return
	}
	d.undoTo(t, 0)
	d.finish(t)
}

func (d *DB) undoTo(t *txn, n int) {
	for i := len(t.undo) - 1; i >= n; i-- {
		t.undo[i].r.pend = t.undo[i].prev
	}
	t.undo = t.undo[:n]
}

func (d *DB) finish(t *txn) {
	t.done = true
	delete(d.active, t)
	rows := make([]*row, 0, len(t.locks))
	for r := range t.locks {
		rows = append(rows, r)
	}
	sort.Slice(rows, func(i, j int) bool {
		if rows[i].tbl != rows[j].tbl {
			return rows[i].tbl.Name < rows[j].tbl.Name
		}
		return rows[i].id < rows[j].id
	})
	for _, r := range rows {
		d.release(r, t)
	}
	t.locks = map[*row]bool{}
}

func (d *DB) release(r *row, t *txn) {
	if r.owner != t && !r.share[t] {
		return
	}
	if r.owner == t {
		r.owner = nil
	}
	delete(r.share, t)
	d.grant(r)
}

// grant gives r to those who wait for it, as far as possible.
func (d *DB) grant(r *row) {
	for len(r.waitq) > 0 {
		w := r.waitq[0]
		if w.res != 0 || w.tx.done {
			r.waitq = r.waitq[1:]
			continue
		}
		if r.held(w.tx, w.sh) {
			return
		}
		r.waitq = r.waitq[1:]
		w.res = 1
		w.tx.waiting = nil
		r.give(w.tx, w.sh)
		close(w.ch)
	}
	if r.owner != nil || len(r.share) > 0 {
		return
	}
	if r.pend == nil && r.latest() == nil && len(r.vers) == 0 {
		// ghost of a rolled back insert
		for i, x := range r.tbl.rows {
			if x == r {
				r.tbl.rows = append(append([]*row{}, r.tbl.rows[:i]...), r.tbl.rows[i+1:]...)
				break
			}
		}
	}
}

type lockMode int

const (
	lockWait lockMode = iota
	lockNoWait
	lockSkip
	lockShare lockMode = 16 // with one of the others
)

// lock acquires r for t; d.mu is held.  Returns false when skipped, and waited
// when the lock was obtained after blocking (the caller must re-evaluate).
func (d *DB) lock(c *conn, t *txn, r *row, m lockMode) (ok, waited bool) {
	sh := m&lockShare != 0
	m &^= lockShare
	if r.owner == t || sh && r.share[t] {
		return true, false
	}
	queue := false
	for _, w := range r.waitq {
		queue = queue || sh && w.res == 0 && !w.tx.done
	}
	if !queue && !r.held(t, sh) {
		r.give(t, sh)
		return true, false
	}
	switch m {
	case lockNoWait:
		panic(myErr(3572, "Statement aborted because lock(s) could not be acquired immediately and NOWAIT is set."))
	case lockSkip:
		return false, false
	}
	// deadlock detection
	if r.waitsFor(t, t, sh, map[*txn]bool{}) {
		d.rollback(t)
		panic(myErr(1213, "Deadlock found when trying to get lock; try restarting transaction"))
	}
	w := &waiter{tx: t, ch: make(chan struct{}), sh: sh}
	r.waitq = append(r.waitq, w)
	t.waitSh = sh
	t.waiting = r
	c.exiting = true // a Goexit from here on happens without the mutex
	d.mu.Unlock()
	if d.Hooks != nil {
		d.Hooks.Blocked(c.proc)
	}
	timeout := false
	tm := time.NewTimer(d.LockWait)
	select {
	case <-w.ch:
		tm.Stop()
	case <-tm.C:
		timeout = true
	case <-c.proc.killed:
		tm.Stop()
		c.proc.exit()
	}
	if !timeout && d.Hooks != nil {
		if c.proc.isKilled() {
			c.proc.exit()
		}
		d.Hooks.Resumed(c.proc)
	}
	if c.proc.isKilled() {
		c.proc.exit()
	}
	d.mu.Lock()
	c.exiting = false
	if timeout && w.res == 0 {
		w.res = 2
		t.waiting = nil
		d.grant(r)
		panic(myErr(1205, "Lock wait timeout exceeded; try restarting transaction"))
	}
	if t.done {
		panic(myErr(1213, "Deadlock found when trying to get lock; try restarting transaction"))
	}
	return true, true
}

func (d *DB) setPend(t *txn, r *row, vals []Value, isNew bool) {
	t.undo = append(t.undo, undo{r, r.pend, isNew})
	r.pend = &pend{t, vals}
}

// ---- storage coercion ----

func roundTime(x time.Time, prec int) time.Time {
	unit := time.Second
	for i := 0; i < prec; i++ {
		unit /= 10
	}
	x = x.UTC()
	return x.Round(unit)
}

func parseTime(s string) (time.Time, bool) {
	for _, l := range []string{"2006-01-02 15:04:05.999999999-07:00", "2006-01-02 15:04:05.999999999", "2006-01-02T15:04:05.999999999Z07:00", "2006-01-02T15:04:05.999999999", "2006-01-02"} {
		if t, err := time.ParseInLocation(l, s, time.Local); err == nil {
			return t.UTC(), true
		}
	}
	return time.Time{}, false
}

func (c *Column) coerce(v Value) Value {
	if v == nil {
		if c.NotNull {
			panic(myErr(1048, "Column '%s' cannot be null", c.Name))
		}
		return nil
	}
	switch c.Kind {
	case kInt:
		var n int64
		switch x := v.(type) {
		case int64:
			n = x
		case float64:
			n = int64(x + 0.5)
			if x < 0 {
				n = int64(x - 0.5)
			}
		case string:
			m, err := strconv.ParseInt(strings.TrimSpace(x), 10, 64)
			if err != nil {
				panic(myErr(1366, "Incorrect integer value: '%s' for column '%s'", x, c.Name))
			}
			n = m
		default:
			panic(myErr(1366, "Incorrect integer value for column '%s'", c.Name))
		}
		if n < c.Min || n > c.Max {
			panic(myErr(1264, "Out of range value for column '%s'", c.Name))
		}
		return n
	case kFloat:
		f, ok := toNum(v)
		if !ok {
			panic(myErr(1366, "Incorrect double value for column '%s'", c.Name))
		}
		return f
	case kString, kBlob:
		s := toStr(v)
		if c.Kind == kString && !utf8.ValidString(s) {
			panic(myErr(1366, "Incorrect string value for column '%s'", c.Name))
		}
		if c.MaxChars > 0 && utf8.RuneCountInString(s) > c.MaxChars || c.MaxBytes > 0 && len(s) > c.MaxBytes {
			panic(myErr(1406, "Data too long for column '%s'", c.Name))
		}
		return s
	case kTime:
		switch x := v.(type) {
		case time.Time:
			if x.IsZero() {
				panic(myErr(1292, "Incorrect datetime value: '0000-00-00' for column '%s'", c.Name))
			}
			return roundTime(x, c.Prec)
		case string:
			t, ok := parseTime(x)
			if !ok {
				panic(myErr(1292, "Incorrect datetime value: '%s' for column '%s'", x, c.Name))
			}
			return roundTime(t, c.Prec)
		}
		panic(myErr(1292, "Incorrect datetime value for column '%s'", c.Name))
	}
	return v
}

func (c *Column) zero() Value {
	if c.HasDef {
		return c.Def
	}
	if !c.NotNull {
		return nil
	}
	panic(myErr(1364, "Field '%s' doesn't have a default value", c.Name))
}

// ---- values ----

func toNum(v Value) (float64, bool) {
	switch x := v.(type) {
	case int64:
		return float64(x), true
	case float64:
		return x, true
	case string:
		s := strings.TrimSpace(x)
		for n := len(s); n > 0; n-- {
			if f, err := strconv.ParseFloat(s[:n], 64); err == nil {
				return f, true
			}
		}
		return 0, true
	case time.Time:
		f, _ := strconv.ParseFloat(x.Format("20060102150405.999999"), 64)
		return f, true
	}
	return 0, false
}

func toStr(v Value) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case time.Time:
		return x.In(time.Local).Format("2006-01-02 15:04:05.999999")
	}
	return fmt.Sprint(v)
}

// compare returns ok=false when either side is NULL.
func compare(a, b Value) (int, bool) {
	if a == nil || b == nil {
		return 0, false
	}
	at, aT := a.(time.Time)
	bt, bT := b.(time.Time)
	if aT || bT {
		if !aT {
			if s, ok := a.(string); ok {
				at, aT = parseTime(s)
			}
		}
		if !bT {
			if s, ok := b.(string); ok {
				bt, bT = parseTime(s)
			}
		}
		if aT && bT {
			switch {
			case at.Before(bt):
				return -1, true
			case at.After(bt):
				return 1, true
			}
			return 0, true
		}
	}
	as, aS := a.(string)
	bs, bS := b.(string)
	if aS && bS {
		return strings.Compare(as, bs), true
	}
	if ai, ok := a.(int64); ok {
		if bi, ok := b.(int64); ok {
			switch {
			case ai < bi:
				return -1, true
			case ai > bi:
				return 1, true
			}
			return 0, true
		}
	}
	x, _ := toNum(a)
	y, _ := toNum(b)
	switch {
	case x < y:
		return -1, true
	case x > y:
		return 1, true
	}
	return 0, true
}

func truth(v Value) (bool, bool) {
	if v == nil {
		return false, false
	}
	f, _ := toNum(v)
	return f != 0, true
}

func b2v(b bool) Value {
	if b {
		return int64(1)
	}
	return int64(0)
}

func likeMatch(s, p []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if likeMatch(s[i:], p[1:]) {
				return true
			}
		}
		return false
	case '_':
		return len(s) > 0 && likeMatch(s[1:], p[1:])
	case '\\':
		if len(p) > 1 {
			return len(s) > 0 && s[0] == p[1] && likeMatch(s[1:], p[2:])
		}
	}
	return len(s) > 0 && s[0] == p[0] && likeMatch(s[1:], p[1:])
}

// ---- evaluation ----

type binding struct {
	alias string
	tbl   *Table // nil for derived
	cols  []string
	vals  []Value // nil = all NULL (left join)
	row   *row
}

type env struct {
	d       *DB
	tx      *txn
	args    []Value
	b       []binding
	outer   *env
	group   [][]binding      // aggregate context
	ins     map[string]Value // VALUES() in ON DUPLICATE KEY
	aliases map[string]expr
}

func (e *env) lookup(c *eCol) Value {
	for s := e; s != nil; s = s.outer {
		for i := range s.b {
			b := &s.b[i]
			if c.tbl != "" && !strings.EqualFold(b.alias, c.tbl) && !(b.tbl != nil && b.alias == b.tbl.Name && strings.EqualFold(b.tbl.Name, c.tbl)) {
				continue
			}
			for j, n := range b.cols {
				if strings.EqualFold(n, c.name) {
					if b.vals == nil {
						return nil
					}
					return b.vals[j]
				}
			}
		}
		if c.tbl == "" && s.aliases != nil {
			if x, ok := s.aliases[strings.ToLower(c.name)]; ok {
				al := s.aliases
				s.aliases = nil
				v := s.eval(x)
				s.aliases = al
				return v
			}
		}
	}
	n := c.name
	if c.tbl != "" {
		n = c.tbl + "." + n
	}
	panic(myErr(1054, "Unknown column '%s' in 'where clause'", n))
}

func cmpOp(op string, c int) bool {
	switch op {
	case "=":
		return c == 0
	case "<>":
		return c != 0
	case "<":
		return c < 0
	case ">":
		return c > 0
	case "<=":
		return c <= 0
	case ">=":
		return c >= 0
	}
	return false
}

func (e *env) cmpEq(a, b Value) (bool, bool) {
	c, ok := compare(a, b)
	return c == 0, ok
}

func (e *env) eval(x expr) Value {
	switch n := x.(type) {
	case *eLit:
		return n.v
	case *eParam:
		if n.i >= len(e.args) {
			unsupported("missing argument %d", n.i)
		}
		return e.args[n.i]
	case *eCol:
		return e.lookup(n)
	case *eUn:
		v := e.eval(n.x)
		if n.op == "NOT" {
			b, ok := truth(v)
			if !ok {
				return nil
			}
			return b2v(!b)
		}
		switch y := v.(type) {
		case nil:
			return nil
		case int64:
			return -y
		default:
			f, _ := toNum(v)
			return -f
		}
	case *eBin:
		return e.evalBin(n)
	case *eIn:
		return e.evalIn(n)
	case *eBetween:
		v := e.eval(n.x)
		c1, ok1 := compare(v, e.eval(n.lo))
		c2, ok2 := compare(v, e.eval(n.hi))
		if ok1 && c1 < 0 || ok2 && c2 > 0 {
			return b2v(n.not)
		}
		if !ok1 || !ok2 {
			return nil
		}
		return b2v(!n.not)
	case *eLike:
		v, p := e.eval(n.x), e.eval(n.p)
		if v == nil || p == nil {
			return nil
		}
		return b2v(likeMatch([]rune(toStr(v)), []rune(toStr(p))) != n.not)
	case *eIsNull:
		return b2v((e.eval(n.x) == nil) != n.not)
	case *eIsBool:
		b, ok := truth(e.eval(n.x))
		return b2v((ok && b == n.want) != n.not)
	case *eCase:
		for _, w := range n.whens {
			if n.x != nil {
				if c, ok := compare(e.eval(n.x), e.eval(w[0])); ok && c == 0 {
					return e.eval(w[1])
				}
			} else if b, ok := truth(e.eval(w[0])); ok && b {
				return e.eval(w[1])
			}
		}
		if n.els == nil {
			return nil
		}
		return e.eval(n.els)
	case *eSub:
		_, rows := e.d.runSelect(nil, e.tx, n.s, e.args, e, false)
		if len(rows) == 0 {
			return nil
		}
		if len(rows) > 1 {
			panic(myErr(1242, "Subquery returns more than 1 row"))
		}
		return rows[0][0]
	case *eExists:
		_, rows := e.d.runSelect(nil, e.tx, n.s, e.args, e, false)
		return b2v(len(rows) > 0)
	case *eFunc:
		return e.evalFunc(n)
	case *eDefault:
		unsupported("DEFAULT in expression")
	}
	unsupported("expression %T", x)
	return nil
}

func (e *env) evalBin(n *eBin) Value {
	switch n.op {
	case "AND":
		a, ok := truth(e.eval(n.l))
		if ok && !a {
			return int64(0)
		}
		b, ok2 := truth(e.eval(n.r))
		if ok2 && !b {
			return int64(0)
		}
		if !ok || !ok2 {
			return nil
		}
		return int64(1)
	case "OR":
		a, ok := truth(e.eval(n.l))
		if ok && a {
			return int64(1)
		}
		b, ok2 := truth(e.eval(n.r))
		if ok2 && b {
			return int64(1)
		}
		if !ok || !ok2 {
			return nil
		}
		return int64(0)
	case "=", "<>", "<", ">", "<=", ">=", "<=>":
		lr, lok := n.l.(*eRow)
		rr, rok := n.r.(*eRow)
		if lok && rok {
			if len(lr.xs) != len(rr.xs) {
				panic(myErr(1241, "Operand should contain %d column(s)", len(lr.xs)))
			}
			for i := range lr.xs {
				c, ok := compare(e.eval(lr.xs[i]), e.eval(rr.xs[i]))
				if !ok {
					return nil
				}
				if c != 0 {
					switch n.op {
					case "=":
						return int64(0)
					case "<>":
						return int64(1)
					}
					return b2v(cmpOp(n.op, c))
				}
			}
			return b2v(cmpOp(n.op, 0))
		}
		a, b := e.eval(n.l), e.eval(n.r)
		if n.op == "<=>" {
			if a == nil || b == nil {
				return b2v(a == nil && b == nil)
			}
			c, _ := compare(a, b)
			return b2v(c == 0)
		}
		c, ok := compare(a, b)
		if !ok {
			return nil
		}
		return b2v(cmpOp(n.op, c))
	case "+I", "-I":
		return e.dateAdd(e.eval(n.l), n.r.(*eInterval), n.op == "-I")
	}
	a, b := e.eval(n.l), e.eval(n.r)
	if a == nil || b == nil {
		return nil
	}
	ai, aok := a.(int64)
	bi, bok := b.(int64)
	if aok && bok {
		switch n.op {
		case "+":
			return ai + bi
		case "-":
			return ai - bi
		case "*":
			return ai * bi
		case "%":
			if bi == 0 {
				return nil
			}
			return ai % bi
		case "DIV":
			if bi == 0 {
				return nil
			}
			return ai / bi
		}
	}
	x, _ := toNum(a)
	y, _ := toNum(b)
	switch n.op {
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	case "/":
		if y == 0 {
			return nil
		}
		return x / y
	case "DIV":
		if y == 0 {
			return nil
		}
		return int64(x / y)
	}
	unsupported("operator %s", n.op)
	return nil
}

func (e *env) dateAdd(v Value, iv *eInterval, neg bool) Value {
	n := e.eval(iv.n)
	if v == nil || n == nil {
		return nil
	}
	t, ok := v.(time.Time)
	if !ok {
		t, ok = parseTime(toStr(v))
		if !ok {
			return nil
		}
	}
	f, _ := toNum(n)
	if neg {
		f = -f
	}
	unit := map[string]time.Duration{"SECOND": time.Second, "MINUTE": time.Minute, "HOUR": time.Hour, "DAY": 24 * time.Hour, "MICROSECOND": time.Microsecond, "WEEK": 7 * 24 * time.Hour}[iv.unit]
	if unit == 0 {
		unsupported("interval unit %s", iv.unit)
	}
	return t.Add(time.Duration(f * float64(unit)))
}

func (e *env) evalIn(n *eIn) Value {
	var eqs []struct{ eq, ok bool }
	add := func(eq, ok bool) { eqs = append(eqs, struct{ eq, ok bool }{eq, ok}) }
	if n.sub != nil {
		v := e.eval(n.x)
		_, rows := e.d.runSelect(nil, e.tx, n.sub, e.args, e, false)
		for _, r := range rows {
			add(e.cmpEq(v, r[0]))
		}
	} else if lr, ok := n.x.(*eRow); ok {
		for _, it := range n.list {
			rr, ok := it.(*eRow)
			if !ok || len(rr.xs) != len(lr.xs) {
				panic(myErr(1241, "Operand should contain %d column(s)", len(lr.xs)))
			}
			eq, known := true, true
			for i := range lr.xs {
				q, k := e.cmpEq(e.eval(lr.xs[i]), e.eval(rr.xs[i]))
				if k && !q {
					eq, known = false, true
					break
				}
				if !k {
					known = false
				}
			}
			add(eq, known)
		}
	} else {
		v := e.eval(n.x)
		for _, it := range n.list {
			add(e.cmpEq(v, e.eval(it)))
		}
	}
	null := false
	for _, q := range eqs {
		if q.ok && q.eq {
			return b2v(!n.not)
		}
		if !q.ok {
			null = true
		}
	}
	if null {
		return nil
	}
	return b2v(n.not)
}

var aggs = map[string]bool{"COUNT": true, "SUM": true, "MIN": true, "MAX": true, "AVG": true, "GROUP_CONCAT": true}

func hasAgg(x expr) bool {
	switch n := x.(type) {
	case *eFunc:
		if aggs[n.name] {
			return true
		}
		for _, a := range n.args {
			if hasAgg(a) {
				return true
			}
		}
	case *eBin:
		return hasAgg(n.l) || hasAgg(n.r)
	case *eUn:
		return hasAgg(n.x)
	case *eCase:
		for _, w := range n.whens {
			if hasAgg(w[0]) || hasAgg(w[1]) {
				return true
			}
		}
		return n.els != nil && hasAgg(n.els)
	case *eIn:
		return hasAgg(n.x)
	case *eBetween:
		return hasAgg(n.x)
	case *eIsNull:
		return hasAgg(n.x)
	}
	return false
}

func (e *env) evalFunc(n *eFunc) Value {
	if aggs[n.name] {
		if e.group == nil {
			panic(myErr(1111, "Invalid use of group function"))
		}
		var vals []Value
		seen := map[string]bool{}
		for _, b := range e.group {
			if n.star {
				vals = append(vals, int64(1))
				continue
			}
			v := (&env{d: e.d, tx: e.tx, args: e.args, b: b, outer: e.outer}).eval(n.args[0])
			if v == nil {
				continue
			}
			if n.distinct {
				k := fmt.Sprintf("%T:%v", v, v)
				if seen[k] {
					continue
				}
				seen[k] = true
			}
			vals = append(vals, v)
		}
		switch n.name {
		case "COUNT":
			return int64(len(vals))
		case "MIN", "MAX":
			var best Value
			for _, v := range vals {
				if best == nil {
					best = v
				} else if c, _ := compare(v, best); n.name == "MIN" && c < 0 || n.name == "MAX" && c > 0 {
					best = v
				}
			}
			return best
		case "SUM", "AVG":
			if len(vals) == 0 {
				return nil
			}
			s, isInt := 0.0, true
			var si int64
			for _, v := range vals {
				if i, ok := v.(int64); ok {
					si += i
				} else {
					isInt = false
				}
				f, _ := toNum(v)
				s += f
			}
			if n.name == "AVG" {
				return s / float64(len(vals))
			}
			if isInt {
				return si
			}
			return s
		case "GROUP_CONCAT":
			var ss []string
			for _, v := range vals {
				ss = append(ss, toStr(v))
			}
			if len(ss) == 0 {
				return nil
			}
			return strings.Join(ss, ",")
		}
	}
	if n.name == "DATE_ADD" || n.name == "DATE_SUB" || n.name == "ADDDATE" || n.name == "SUBDATE" {
		return e.dateAdd(e.eval(n.args[0]), n.args[1].(*eInterval), n.name == "DATE_SUB" || n.name == "SUBDATE")
	}
	if n.name == "VALUES" && len(n.args) == 1 {
		if c, ok := n.args[0].(*eCol); ok && e.ins != nil {
			return e.ins[strings.ToLower(c.name)]
		}
	}
	if n.name == "IF" {
		if b, ok := truth(e.eval(n.args[0])); ok && b {
			return e.eval(n.args[1])
		}
		return e.eval(n.args[2])
	}
	var a []Value
	for _, x := range n.args {
		a = append(a, e.eval(x))
	}
	switch n.name {
	case "NOW", "SYSDATE", "CURRENT_TIMESTAMP", "UTC_TIMESTAMP", "LOCALTIME":
		p := 0
		if len(a) > 0 {
			f, _ := toNum(a[0])
			p = int(f)
		}
		unit := time.Second
		for i := 0; i < p; i++ {
			unit /= 10
		}
		return time.Now().UTC().Truncate(unit)
	case "UNIX_TIMESTAMP":
		if len(a) == 0 {
			return time.Now().Unix()
		}
		if t, ok := a[0].(time.Time); ok {
			return t.Unix()
		}
		return nil
	case "IFNULL", "COALESCE":
		for _, v := range a {
			if v != nil {
				return v
			}
		}
		return nil
	case "NULLIF":
		if c, ok := compare(a[0], a[1]); ok && c == 0 {
			return nil
		}
		return a[0]
	case "LENGTH", "CHAR_LENGTH", "CHARACTER_LENGTH", "OCTET_LENGTH":
		if a[0] == nil {
			return nil
		}
		if strings.HasPrefix(n.name, "CHAR") {
			return int64(utf8.RuneCountInString(toStr(a[0])))
		}
		return int64(len(toStr(a[0])))
	case "LOWER", "LCASE", "UPPER", "UCASE", "TRIM":
		if a[0] == nil {
			return nil
		}
		s := toStr(a[0])
		switch n.name {
		case "LOWER", "LCASE":
			return strings.ToLower(s)
		case "TRIM":
			return strings.Trim(s, " ")
		}
		return strings.ToUpper(s)
	case "CONCAT":
		var b strings.Builder
		for _, v := range a {
			if v == nil {
				return nil
			}
			b.WriteString(toStr(v))
		}
		return b.String()
	case "LEFT":
		if a[0] == nil {
			return nil
		}
		f, _ := toNum(a[1])
		r := []rune(toStr(a[0]))
		if int(f) < len(r) {
			r = r[:int(f)]
		}
		return string(r)
	case "GREATEST", "LEAST":
		best := a[0]
		for _, v := range a {
			if v == nil {
				return nil
			}
			if c, _ := compare(v, best); n.name == "GREATEST" && c > 0 || n.name == "LEAST" && c < 0 {
				best = v
			}
		}
		return best
	case "ABS":
		if i, ok := a[0].(int64); ok {
			if i < 0 {
				i = -i
			}
			return i
		}
	case "MOD":
		x, ok := a[0].(int64)
		y, ok2 := a[1].(int64)
		if ok && ok2 && y != 0 {
			return x % y
		}
	case "VERSION":
		return "8.0.30"
	case "DATABASE":
		return "db"
	case "ROW_COUNT", "LAST_INSERT_ID", "SLEEP", "GET_LOCK", "RELEASE_LOCK":
		unsupported("function %s", n.name)
	case "CAST", "CONVERT":
		if a[0] == nil {
			return nil
		}
		switch t := toStr(a[1]); t {
		case "CHAR":
			return toStr(a[0])
		case "JSON":
			if !json.Valid([]byte(toStr(a[0]))) {
				panic(myErr(3140, "Invalid JSON text"))
			}
			return toStr(a[0])
		case "SIGNED", "UNSIGNED":
			f, _ := toNum(a[0])
			return int64(f)
		case "DATETIME":
			if x, ok := a[0].(time.Time); ok {
				return x
			}
			if x, ok := parseTime(toStr(a[0])); ok {
				return x
			}
			return nil
		}
	}
	unsupported("function %s", n.name)
	return nil
}

// ---- scanning ----

func (t *Table) sorted() []*row {
	rs := append([]*row{}, t.rows...)
	if len(t.PK) > 0 {
		key := func(r *row) []Value {
			if r.pend != nil && r.pend.vals != nil {
				return r.pend.vals
			}
			if v := r.latest(); v != nil {
				return v
			}
			for i := len(r.vers) - 1; i >= 0; i-- {
				if r.vers[i].vals != nil {
					return r.vers[i].vals
				}
			}
			return nil
		}
		sort.SliceStable(rs, func(i, j int) bool {
			a, b := key(rs[i]), key(rs[j])
			if a == nil || b == nil {
				return a != nil && b == nil
			}
			for _, k := range t.PK {
				if c, ok := compare(a[k], b[k]); ok && c != 0 {
					return c < 0
				}
			}
			return rs[i].id < rs[j].id
		})
	}
	return rs
}

func (t *Table) colNames() []string {
	n := make([]string, len(t.Cols))
	for i, c := range t.Cols {
		n[i] = c.Name
	}
	return n
}

func (e *env) match(w expr) bool {
	if w == nil {
		return true
	}
	b, ok := truth(e.eval(w))
	return ok && b
}

func isTrue(v Value) bool { b, ok := truth(v); return ok && b }

func (d *DB) evalInt(x expr, args []Value) int {
	if x == nil {
		return -1
	}
	v := (&env{d: d, args: args}).eval(x)
	f, _ := toNum(v)
	return int(f)
}

// lockMatching locks, for a current read on one table, the rows that satisfy
// where (in the given order, up to limit) and returns them.
func (d *DB) lockMatching(c *conn, tx *txn, t *Table, alias string, where expr, order []orderItem, limit int, args []Value, outer *env, m lockMode) []*row {
	cols := t.colNames()
restart:
	var cands []*row
	mk := func(v []Value, r *row) *env {
		return &env{d: d, tx: tx, args: args, outer: outer, b: []binding{{alias: alias, tbl: t, cols: cols, vals: v, row: r}}}
	}
	for _, r := range t.sorted() {
		cur := r.current(tx)
		ok := cur != nil && mk(cur, r).match(where)
		if !ok && r.pend != nil && r.pend.tx != tx && r.pend.vals != nil {
			ok = mk(r.pend.vals, r).match(where)
		}
		if ok {
			cands = append(cands, r)
		}
	}
	val := func(r *row) []Value {
		if v := r.current(tx); v != nil {
			return v
		}
		return r.pend.vals
	}
	if len(order) > 0 {
		sort.SliceStable(cands, func(i, j int) bool {
			return lessBy(order, mk(val(cands[i]), cands[i]), mk(val(cands[j]), cands[j]))
		})
	}
	var out []*row
	for _, r := range cands {
		if limit >= 0 && len(out) >= limit {
			break
		}
		ok, waited := d.lock(c, tx, r, m)
		if !ok {
			continue
		}
		if waited {
			goto restart
		}
		cur := r.current(tx)
		if cur == nil || !mk(cur, r).match(where) {
			continue
		}
		out = append(out, r)
	}
	return out
}

func lessBy(order []orderItem, a, b *env) bool {
	for _, o := range order {
		x, y := a.eval(o.e), b.eval(o.e)
		if x == nil || y == nil {
			if (x == nil) == (y == nil) {
				continue
			}
			return (x == nil) != o.desc
		}
		c, _ := compare(x, y)
		if c == 0 {
			continue
		}
		return (c < 0) != o.desc
	}
	return false
}

// ---- SELECT ----

func (d *DB) runSelect(c *conn, tx *txn, s *selectStmt, args []Value, outer *env, top bool) ([]selCol, [][]Value) {
	m := lockWait
	if s.nowait {
		m = lockNoWait
	} else if s.skip {
		m = lockSkip
	}
	if s.share {
		m |= lockShare
	}
	limit, offset := d.evalInt(s.limit, args), d.evalInt(s.offset, args)
	var tuples [][]binding
	if len(s.from) == 0 {
		tuples = [][]binding{nil}
		if s.where != nil && !(&env{d: d, tx: tx, args: args, outer: outer}).match(s.where) {
			tuples = nil
		}
	} else if len(s.from) == 1 && s.lock && s.from[0].sub == nil && c != nil && !anyAgg(s) {
		t := d.table(s.from[0].name)
		lim := limit
		if lim >= 0 && offset > 0 {
			lim += offset
		}
		if len(s.group) > 0 || s.distinct {
			lim = -1
		}
		for _, r := range d.lockMatching(c, tx, t, s.from[0].alias, s.where, s.order, lim, args, outer, m) {
			tuples = append(tuples, []binding{{alias: s.from[0].alias, tbl: t, cols: t.colNames(), vals: r.current(tx), row: r}})
		}
	} else {
	again:
		tuples = d.joinAll(tx, s, args, outer)
		if s.lock && c != nil {
			for _, tp := range tuples {
				for _, b := range tp {
					if b.row != nil {
						ok, waited := d.lock(c, tx, b.row, m)
						if waited {
							goto again
						}
						if !ok {
							unsupported("SKIP LOCKED join")
						}
					}
				}
			}
		}
	}
	agg := anyAgg(s) || len(s.group) > 0
	aliases := map[string]expr{}
	for _, it := range s.items {
		if it.alias != "" {
			aliases[strings.ToLower(it.alias)] = it.e
		}
	}
	var envs []*env
	if agg {
		var keys []string
		groups := map[string][][]binding{}
		for _, tp := range tuples {
			e := &env{d: d, tx: tx, args: args, b: tp, outer: outer, aliases: aliases}
			var kb strings.Builder
			for _, g := range s.group {
				v := e.eval(g)
				fmt.Fprintf(&kb, "%T:%v|", v, v)
			}
			k := kb.String()
			if _, ok := groups[k]; !ok {
				keys = append(keys, k)
			}
			groups[k] = append(groups[k], tp)
		}
		if len(s.group) == 0 && len(keys) == 0 {
			var nulls []binding
			for _, f := range s.from {
				if f.sub == nil {
					t := d.table(f.name)
					nulls = append(nulls, binding{alias: f.alias, tbl: t, cols: t.colNames()})
				}
			}
			envs = append(envs, &env{d: d, tx: tx, args: args, b: nulls, outer: outer, group: [][]binding{}, aliases: aliases})
		}
		for _, k := range keys {
			envs = append(envs, &env{d: d, tx: tx, args: args, b: groups[k][0], outer: outer, group: groups[k], aliases: aliases})
		}
	} else {
		for _, tp := range tuples {
			envs = append(envs, &env{d: d, tx: tx, args: args, b: tp, outer: outer, aliases: aliases})
		}
	}
	if s.having != nil {
		var o []*env
		for _, e := range envs {
			if e.match(s.having) {
				o = append(o, e)
			}
		}
		envs = o
	}
	if len(s.order) > 0 {
		ord := append([]orderItem{}, s.order...)
		for i, o := range ord { // ORDER BY position
			if l, ok := o.e.(*eLit); ok {
				if n, ok := l.v.(int64); ok && int(n) >= 1 && int(n) <= len(s.items) {
					ord[i].e = s.items[n-1].e
				}
			}
		}
		sort.SliceStable(envs, func(i, j int) bool { return lessBy(ord, envs[i], envs[j]) })
	}
	// projection
	var cols []selCol
	colSrc := []binding{}
	if len(s.from) > 0 {
		for _, f := range s.from {
			if f.sub != nil {
				sc, _ := d.runSelect(nil, tx, f.sub, args, outer, false)
				b := binding{alias: f.alias}
				for _, x := range sc {
					b.cols = append(b.cols, x.name)
				}
				colSrc = append(colSrc, b)
				continue
			}
			t := d.table(f.name)
			colSrc = append(colSrc, binding{alias: f.alias, tbl: t, cols: t.colNames()})
		}
	}
	for _, it := range s.items {
		switch x := it.e.(type) {
		case *eStar:
			for _, b := range colSrc {
				if x.tbl != "" && !strings.EqualFold(x.tbl, b.alias) {
					continue
				}
				for j, n := range b.cols {
					sc := selCol{name: n}
					if b.tbl != nil {
						sc.col = b.tbl.Cols[j]
					}
					cols = append(cols, sc)
				}
			}
		case *eCol:
			sc := selCol{name: x.name}
			if it.alias != "" {
				sc.name = it.alias
			}
			for _, b := range colSrc {
				if b.tbl != nil && (x.tbl == "" || strings.EqualFold(x.tbl, b.alias)) {
					if j := b.tbl.col(x.name); j >= 0 {
						sc.col = b.tbl.Cols[j]
					}
				}
			}
			cols = append(cols, sc)
		default:
			n := it.alias
			if n == "" {
				n = it.text
			}
			cols = append(cols, selCol{name: n})
		}
	}
	var rows [][]Value
	seen := map[string]bool{}
	for _, e := range envs {
		var out []Value
		for _, it := range s.items {
			if x, ok := it.e.(*eStar); ok {
				for _, b := range e.b {
					if x.tbl != "" && !strings.EqualFold(x.tbl, b.alias) {
						continue
					}
					for j := range b.cols {
						if b.vals == nil {
							out = append(out, nil)
						} else {
							out = append(out, b.vals[j])
						}
					}
				}
				continue
			}
			al := e.aliases
			e.aliases = nil
			out = append(out, e.eval(it.e))
			e.aliases = al
		}
		if s.distinct {
			k := fmt.Sprintf("%v", out)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		rows = append(rows, out)
	}
	// validate columns even for an empty result
	if len(envs) == 0 && len(s.from) > 0 {
		for _, it := range s.items {
			if x, ok := it.e.(*eCol); ok {
				(&env{d: d, tx: tx, args: args, b: colSrc, outer: outer}).lookup(x)
			}
		}
	}
	if offset > 0 {
		if offset > len(rows) {
			offset = len(rows)
		}
		rows = rows[offset:]
	}
	if limit >= 0 && len(rows) > limit {
		rows = rows[:limit]
	}
	return cols, rows
}

type selCol struct {
	name string
	col  *Column
}

func anyAgg(s *selectStmt) bool {
	for _, it := range s.items {
		if hasAgg(it.e) {
			return true
		}
	}
	return s.having != nil && hasAgg(s.having)
}

func (d *DB) joinAll(tx *txn, s *selectStmt, args []Value, outer *env) [][]binding {
	tuples := [][]binding{nil}
	var ts int64
	if !s.lock {
		ts = tx.readTS()
	}
	for _, f := range s.from {
		var src []binding
		var null binding
		if f.sub != nil {
			sc, rows := d.runSelect(nil, tx, f.sub, args, outer, false)
			var cols []string
			for _, x := range sc {
				cols = append(cols, x.name)
			}
			for _, r := range rows {
				src = append(src, binding{alias: f.alias, cols: cols, vals: r})
			}
			null = binding{alias: f.alias, cols: cols}
		} else {
			t := d.table(f.name)
			cols := t.colNames()
			for _, r := range t.sorted() {
				var v []Value
				if s.lock {
					v = r.current(tx)
					if v == nil && r.pend != nil {
						v = r.pend.vals
					}
				} else {
					v = r.snapshot(tx, ts)
				}
				if v != nil {
					src = append(src, binding{alias: f.alias, tbl: t, cols: cols, vals: v, row: r})
				}
			}
			null = binding{alias: f.alias, tbl: t, cols: cols}
		}
		var next [][]binding
		for _, tp := range tuples {
			hit := false
			for _, b := range src {
				nt := append(append([]binding{}, tp...), b)
				if f.on != nil && !(&env{d: d, tx: tx, args: args, b: nt, outer: outer}).match(f.on) {
					continue
				}
				hit = true
				next = append(next, nt)
			}
			if !hit && f.join == "left" {
				next = append(next, append(append([]binding{}, tp...), null))
			}
		}
		tuples = next
	}
	if s.where != nil {
		var o [][]binding
		for _, tp := range tuples {
			if (&env{d: d, tx: tx, args: args, b: tp, outer: outer}).match(s.where) {
				o = append(o, tp)
			}
		}
		tuples = o
	}
	return tuples
}

// ---- DML ----

type execResult struct {
	affected int64
	lastID   int64
}

func keyEq(a, b []Value, cols []int) bool {
	for _, i := range cols {
		if a[i] == nil || b[i] == nil {
			return false
		}
		if c, ok := compare(a[i], b[i]); !ok || c != 0 {
			return false
		}
	}
	return true
}

func (t *Table) keys() []unique {
	var ks []unique
	if len(t.PK) > 0 {
		ks = append(ks, unique{"PRIMARY", t.PK})
	}
	return append(ks, t.uniques...)
}

// conflict finds a row that holds a unique key of vals (locking it); self excluded.
func (d *DB) conflict(c *conn, tx *txn, t *Table, vals []Value, self *row) (*row, string) {
restart:
	for _, k := range t.keys() {
		for _, r := range t.sorted() {
			if r == self {
				continue
			}
			cur := r.current(tx)
			hit := cur != nil && keyEq(cur, vals, k.cols)
			other := r.pend != nil && r.pend.tx != tx && r.pend.vals != nil && keyEq(r.pend.vals, vals, k.cols)
			if !hit && !other {
				continue
			}
			if r.owner != nil && r.owner != tx {
				d.lock(c, tx, r, lockWait)
				goto restart
			}
			if hit {
				return r, k.name
			}
		}
	}
	return nil, ""
}

func (d *DB) insert(c *conn, tx *txn, s *insertStmt, args []Value) execResult {
	t := d.table(s.table)
	cols := s.cols
	if cols == nil {
		cols = t.colNames()
	}
	idx := make([]int, len(cols))
	for i, n := range cols {
		idx[i] = t.mustCol(n)
	}
	var src [][]Value
	var isDef [][]bool
	if s.sel != nil {
		_, rows := d.runSelect(nil, tx, s.sel, args, nil, false)
		for _, r := range rows {
			src = append(src, r)
			isDef = append(isDef, make([]bool, len(r)))
		}
	} else {
		for _, r := range s.rows {
			if len(r) != len(cols) {
				panic(myErr(1136, "Column count doesn't match value count"))
			}
			vs, ds := make([]Value, len(r)), make([]bool, len(r))
			for i, x := range r {
				if _, ok := x.(*eDefault); ok {
					ds[i] = true
				} else {
					vs[i] = (&env{d: d, tx: tx, args: args}).eval(x)
				}
			}
			src, isDef = append(src, vs), append(isDef, ds)
		}
	}
	var res execResult
	for n, sv := range src {
		vals := make([]Value, len(t.Cols))
		set := make([]bool, len(t.Cols))
		for i, ci := range idx {
			if isDef[n][i] {
				continue
			}
			vals[ci], set[ci] = sv[i], true
		}
		auto := false
		for i, col := range t.Cols {
			if col.AutoInc && (!set[i] || vals[i] == nil || vals[i] == int64(0)) {
				t.nextID++
				vals[i] = t.nextID
				auto = true
				if res.lastID == 0 {
					res.lastID = t.nextID
				}
				continue
			}
			if !set[i] {
				vals[i] = col.zero()
				continue
			}
			vals[i] = col.coerce(vals[i])
			if col.AutoInc {
				if id := vals[i].(int64); id > t.nextID {
					t.nextID = id
				}
			}
		}
		_ = auto
	retry:
		if r, key := d.conflict(c, tx, t, vals, nil); r != nil {
			switch {
			case s.replace:
				d.lock(c, tx, r, lockWait)
				d.setPend(tx, r, nil, false)
				res.affected++
				goto retry
			case len(s.onDup) > 0:
				d.lock(c, tx, r, lockWait)
				cur := r.current(tx)
				ins := map[string]Value{}
				for i, col := range t.Cols {
					ins[strings.ToLower(col.Name)] = vals[i]
				}
				e := &env{d: d, tx: tx, args: args, ins: ins, b: []binding{{alias: t.Name, tbl: t, cols: t.colNames(), vals: cur}}}
				nv := append([]Value{}, cur...)
				e.b[0].vals = nv
				for _, a := range s.onDup {
					i := t.mustCol(a.col)
					if _, ok := a.e.(*eDefault); ok {
						nv[i] = t.Cols[i].zero()
					} else {
						nv[i] = t.Cols[i].coerce(e.eval(a.e))
					}
				}
				if changed(cur, nv) {
					d.setPend(tx, r, nv, false)
					res.affected += 2
				}
				continue
			case s.ignore:
				continue
			}
			panic(myErr(1062, "Duplicate entry '%s' for key '%s.%s'", keyText(vals, t, key), t.Name, key))
		}
		t.nextRow++
		r := &row{id: t.nextRow, tbl: t, owner: tx}
		tx.locks[r] = true
		t.rows = append(t.rows, r)
		d.setPend(tx, r, vals, true)
		res.affected++
		if res.lastID == 0 {
			for i, col := range t.Cols {
				if col.AutoInc {
					res.lastID, _ = vals[i].(int64)
				}
			}
		}
	}
	return res
}

func keyText(v []Value, t *Table, key string) string {
	for _, k := range t.keys() {
		if k.name == key {
			var s []string
			for _, i := range k.cols {
				s = append(s, toStr(v[i]))
			}
			return strings.Join(s, "-")
		}
	}
	return ""
}

func changed(a, b []Value) bool {
	for i := range a {
		if (a[i] == nil) != (b[i] == nil) {
			return true
		}
		if a[i] == nil {
			continue
		}
		if c, _ := compare(a[i], b[i]); c != 0 {
			return true
		}
	}
	return false
}

func (d *DB) update(c *conn, tx *txn, s *updateStmt, args []Value) execResult {
	t := d.table(s.table)
	for _, a := range s.set {
		t.mustCol(a.col)
	}
	rows := d.lockMatching(c, tx, t, s.alias, s.where, s.order, d.evalInt(s.limit, args), args, nil, lockWait)
	var res execResult
	for _, r := range rows {
		cur := r.current(tx)
		if cur == nil {
			continue
		}
		nv := append([]Value{}, cur...)
		e := &env{d: d, tx: tx, args: args, b: []binding{{alias: s.alias, tbl: t, cols: t.colNames(), vals: nv}}}
		for _, a := range s.set {
			i := t.mustCol(a.col)
			if _, ok := a.e.(*eDefault); ok {
				nv[i] = t.Cols[i].zero()
				continue
			}
			nv[i] = t.Cols[i].coerce(e.eval(a.e))
		}
		if !changed(cur, nv) {
			continue
		}
		for _, k := range t.keys() {
			if !keyEq(cur, nv, k.cols) {
				if x, key := d.conflict(c, tx, t, nv, r); x != nil {
					panic(myErr(1062, "Duplicate entry '%s' for key '%s.%s'", keyText(nv, t, key), t.Name, key))
				}
				break
			}
		}
		d.setPend(tx, r, nv, false)
		res.affected++
	}
	return res
}

func (d *DB) delete(c *conn, tx *txn, s *deleteStmt, args []Value) execResult {
	t := d.table(s.table)
	rows := d.lockMatching(c, tx, t, s.alias, s.where, s.order, d.evalInt(s.limit, args), args, nil, lockWait)
	var res execResult
	for _, r := range rows {
		if r.current(tx) == nil {
			continue
		}
		d.setPend(tx, r, nil, false)
		res.affected++
	}
	return res
}

// run executes one statement inside tx with statement-level atomicity.
func (d *DB) run(c *conn, tx *txn, st *stmt, args []Value) (cols []selCol, rows [][]Value, res execResult, err error) {
	mark := len(tx.undo)
	locked := true
	d.mu.Lock()
	defer func() {
		r := recover()
		if r != nil {
			if e, ok := r.(*mysql.MySQLError); ok {
				err = e
				if !tx.done && mark <= len(tx.undo) {
					d.undoTo(tx, mark)
				}
			} else if e, ok := r.(ErrUnsupported); ok {
				d.noteUnsupported(e.Msg)
				err = e
				if !tx.done && mark <= len(tx.undo) {
					d.undoTo(tx, mark)
				}
			} else {
				d.mu.Unlock()
				panic(r)
			}
		} else if c.exiting {
			return // Goexit while not holding the mutex
		}
		_ = locked
		d.mu.Unlock()
	}()
	switch s := st.node.(type) {
	case *selectStmt:
		cols, rows = d.runSelect(c, tx, s, args, nil, true)
	case *insertStmt:
		res = d.insert(c, tx, s, args)
	case *updateStmt:
		res = d.update(c, tx, s, args)
	case *deleteStmt:
		res = d.delete(c, tx, s, args)
	case *simpleStmt:
		switch s.op {
		case "savepoint":
			tx.saves = append(tx.saves, savepoint{s.arg, len(tx.undo)})
		case "rollbackto":
			i := len(tx.saves) - 1
			for ; i >= 0 && !strings.EqualFold(tx.saves[i].name, s.arg); i-- {
			}
			if i < 0 {
				panic(myErr(1305, "SAVEPOINT %s does not exist", s.arg))
			}
			d.undoTo(tx, tx.saves[i].n)
			tx.saves = tx.saves[:i+1]
		case "release":
		case "set":
		default:
			unsupported("statement %s", s.op)
		}
	default:
		unsupported("statement %T", s)
	}
	return
}
