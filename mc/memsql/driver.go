package memsql

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	gosql "github.com/go-sql-driver/mysql"

	"gorm.io/gorm"
	"gorm.io/gorm/schema"
)

// Op describes one statement as the scheduler sees it.
type Op struct {
	Proc *Proc
	Kind string // "sql" or "commit"
	SQL  string
	Args []Value
	InTx bool
}

func (o *Op) Text() string {
	if o.Kind == "commit" {
		return "COMMIT"
	}
	var b strings.Builder
	b.WriteString(o.SQL)
	for _, a := range o.Args {
		switch x := a.(type) {
		case time.Time:
			b.WriteString(" " + x.UTC().Format("15:04:05.000"))
		default:
			fmt.Fprintf(&b, " %v", x)
		}
	}
	return b.String()
}

// Verdict is what a hook decides for an operation.
type Verdict struct {
	Err        error // fail the operation
	AfterApply bool  // (commit) apply first, then report Err
}

// Hooks lets a scheduler own every statement.
type Hooks interface {
	Before(op *Op) Verdict // may block; may not return (Goexit)
	After(op *Op, err error)
	Blocked(p *Proc) // the caller is about to wait for a row lock
	Resumed(p *Proc) // lock granted; may block until scheduled
}

// Proc is a client process: a group of connections that die together.
type Proc struct {
	Name   string
	killed chan struct{}
	mu     sync.Mutex
	dead   bool
	txs    map[*txn]bool
}

func NewProc(name string) *Proc {
	return &Proc{Name: name, killed: make(chan struct{}), txs: map[*txn]bool{}}
}

func (p *Proc) isKilled() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.dead
}

// Killed reports whether the process was killed.
func (p *Proc) Killed() bool { return p.isKilled() }

func (p *Proc) exit() { runtime.Goexit() }

// Kill crashes a process: its open transactions are rolled back by the server.
func (d *DB) Kill(p *Proc) {
	p.mu.Lock()
	if p.dead {
		p.mu.Unlock()
		return
	}
	p.dead = true
	p.mu.Unlock()
	d.mu.Lock()
	var ts []*txn
	for t := range p.txs {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		d.rollback(t)
	}
	p.txs = map[*txn]bool{}
	d.mu.Unlock()
	close(p.killed)
}

type connector struct {
	d *DB
	p *Proc
}

func (c connector) Connect(context.Context) (driver.Conn, error) {
	return &conn{d: c.d, proc: c.p}, nil
}
func (c connector) Driver() driver.Driver { return drv{} }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, errors.New("use a connector") }

// Connector returns a database/sql connector for a process.
func (d *DB) Connector(p *Proc) driver.Connector { return connector{d, p} }

type conn struct {
	d       *DB
	proc    *Proc
	tx      *txn
	exiting bool
	broken  bool
}

// IsValid keeps a lost connection out of the pool.
func (c *conn) IsValid() bool { return !c.broken }

// failed does what the server does to the session together with an error: it
// rolls the transaction back when the connection is lost and on a deadlock
// (then the session goes on without a transaction).
func (c *conn) failed(err error) {
	var me *gosql.MySQLError
	switch {
	case errors.Is(err, gosql.ErrInvalidConn) || errors.Is(err, driver.ErrBadConn) || errors.Is(err, io.ErrUnexpectedEOF):
		c.broken = true
	case errors.As(err, &me) && me.Number == 1213:
	default:
		return
	}
	if c.tx == nil {
		return
	}
	c.d.mu.Lock()
	defer c.d.mu.Unlock()
	if !c.tx.done {
		c.d.rollback(c.tx)
	}
	delete(c.proc.txs, c.tx)
}

func (c *conn) Prepare(q string) (driver.Stmt, error) { return &pstmt{c, q}, nil }
func (c *conn) Close() error {
	if c.tx != nil && !c.tx.done {
		c.endTx(false)
	}
	return nil
}
func (c *conn) Begin() (driver.Tx, error) { return c.BeginTx(context.Background(), driver.TxOptions{}) }

func (c *conn) gone() {
	if c.proc.isKilled() {
		c.exiting = true
		runtime.Goexit()
	}
}

func (c *conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	c.gone()
	if c.broken {
		return nil, driver.ErrBadConn
	}
	if c.d.Hooks != nil {
		op := &Op{Proc: c.proc, Kind: "begin"}
		v := c.before(op)
		c.gone()
		if v.Err != nil {
			c.failed(v.Err)
			c.after(op, v.Err)
			return nil, v.Err
		}
	}
	c.d.mu.Lock()
	c.tx = c.d.begin(c.proc, false)
	c.tx.rc = o.Isolation == driver.IsolationLevel(2)
	c.proc.txs[c.tx] = true
	c.d.mu.Unlock()
	return tx{c}, nil
}

func (c *conn) endTx(commit bool) {
	c.d.mu.Lock()
	defer c.d.mu.Unlock()
	if c.tx == nil {
		return
	}
	delete(c.proc.txs, c.tx)
	if commit {
		c.d.commit(c.tx)
	} else {
		c.d.rollback(c.tx)
	}
	c.tx = nil
}

type tx struct{ c *conn }

func (t tx) Commit() error {
	c := t.c
	c.gone()
	if c.broken {
		c.endTx(false)
		return gosql.ErrInvalidConn
	}
	op := &Op{Proc: c.proc, Kind: "commit", InTx: true}
	var v Verdict
	if c.d.Hooks != nil {
		v = c.before(op)
	}
	c.gone()
	if v.Err != nil && !v.AfterApply {
		c.failed(v.Err)
		c.endTx(false)
		c.after(op, v.Err)
		return v.Err
	}
	c.endTx(true)
	if v.Err != nil {
		c.failed(v.Err)
	}
	c.after(op, v.Err)
	return v.Err
}

func (t tx) Rollback() error {
	if t.c.proc.isKilled() {
		return driver.ErrBadConn
	}
	t.c.endTx(false)
	return nil
}

func (c *conn) before(op *Op) Verdict {
	done := false
	defer func() {
		if !done {
			c.exiting = true
		}
	}()
	v := c.d.Hooks.Before(op)
	done = true
	return v
}

func (c *conn) after(op *Op, err error) {
	if c.d.Hooks != nil {
		c.d.Hooks.After(op, err)
	}
}

func (c *conn) exec(q string, nv []driver.NamedValue) (cols []selCol, rows [][]Value, res execResult, err error) {
	c.gone()
	args := make([]Value, len(nv))
	for i, a := range nv {
		switch x := a.Value.(type) {
		case bool:
			args[i] = b2v(x)
		case []byte:
			if x == nil {
				args[i] = nil
			} else {
				args[i] = string(x)
			}
		default:
			args[i] = x
		}
	}
	var st *stmt
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case *gosql.MySQLError:
					err = e
				case ErrUnsupported:
					c.d.noteUnsupported(e.Msg)
					err = e
				default:
					panic(r)
				}
			}
		}()
		st = parse(q)
	}()
	if err != nil {
		return
	}
	if c.broken {
		err = driver.ErrBadConn
		return
	}
	inTx := c.tx != nil && !c.tx.done
	if ss, ok := st.node.(*simpleStmt); ok {
		switch ss.op {
		case "begin":
			c.BeginTx(context.Background(), driver.TxOptions{})
			return
		case "commit":
			err = tx{c}.Commit()
			return
		case "rollback":
			c.endTx(false)
			return
		case "savepoint", "rollbackto", "release":
			if !inTx {
				if ss.op != "savepoint" {
					err = myErr(1305, "SAVEPOINT %s does not exist", ss.arg)
				}
				return
			}
			return c.d.run(c, c.tx, st, args)
		}
	}
	op := &Op{Proc: c.proc, Kind: "sql", SQL: q, Args: args, InTx: inTx}
	if c.d.Hooks != nil {
		v := c.before(op)
		c.gone()
		if v.Err != nil {
			c.failed(v.Err)
			c.after(op, v.Err)
			err = v.Err
			return
		}
	}
	if inTx {
		t := c.tx
		cols, rows, res, err = c.d.run(c, t, st, args)
		if t.done { // rolled back by deadlock detection: autocommit from here on
			c.d.mu.Lock()
			delete(c.proc.txs, t)
			c.d.mu.Unlock()
		}
	} else {
		c.d.mu.Lock()
		t := c.d.begin(c.proc, true)
		c.proc.txs[t] = true
		c.d.mu.Unlock()
		fin := false
		defer func() {
			if !fin {
				return // Goexit: Kill rolls it back
			}
		}()
		cols, rows, res, err = c.d.run(c, t, st, args)
		fin = true
		c.d.mu.Lock()
		delete(c.proc.txs, t)
		if err != nil {
			c.d.rollback(t)
		} else {
			c.d.commit(t)
		}
		c.d.mu.Unlock()
	}
	c.after(op, err)
	return
}

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	cols, rows, _, err := c.exec(q, args)
	if err != nil {
		return nil, err
	}
	return &resultRows{cols, rows, 0}, nil
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	_, _, res, err := c.exec(q, args)
	if err != nil {
		return nil, err
	}
	return res, nil
}

func (c *conn) Ping(context.Context) error { return nil }

func (r execResult) LastInsertId() (int64, error) { return r.lastID, nil }
func (r execResult) RowsAffected() (int64, error) { return r.affected, nil }

type pstmt struct {
	c *conn
	q string
}

func (s *pstmt) Close() error  { return nil }
func (s *pstmt) NumInput() int { return -1 }
func (s *pstmt) Exec(a []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(a))
}
func (s *pstmt) Query(a []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(a))
}
func named(a []driver.Value) []driver.NamedValue {
	out := make([]driver.NamedValue, len(a))
	for i, v := range a {
		out[i] = driver.NamedValue{Ordinal: i + 1, Value: v}
	}
	return out
}

type resultRows struct {
	cols []selCol
	rows [][]Value
	i    int
}

func (r *resultRows) Columns() []string {
	n := make([]string, len(r.cols))
	for i, c := range r.cols {
		n[i] = c.name
	}
	return n
}
func (r *resultRows) Close() error { return nil }
func (r *resultRows) Next(dst []driver.Value) error {
	if r.i >= len(r.rows) {
		return io.EOF
	}
	for i, v := range r.rows[r.i] {
		switch x := v.(type) {
		case string:
			dst[i] = []byte(x)
		case time.Time:
			dst[i] = x.In(time.Local)
		default:
			dst[i] = v
		}
	}
	r.i++
	return nil
}

// ---- schema from gorm models ----

var schemaCache sync.Map

type tableProto struct {
	name    string
	cols    []*Column
	pk      []int
	uniques []unique
}

var protoMu sync.Mutex
var protos = map[string]*tableProto{}

// AddModel creates the table gorm would create for a model.
func (d *DB) AddModel(dial gorm.Dialector, m interface{}) {
	key := fmt.Sprintf("%T", m)
	protoMu.Lock()
	p := protos[key]
	if p == nil {
		p = makeProto(dial, m)
		protos[key] = p
	}
	protoMu.Unlock()
	d.addProto(p)
}

func (d *DB) addProto(p *tableProto) {
	t := &Table{Name: p.name, Cols: p.cols, PK: p.pk, uniques: p.uniques, byName: map[string]int{}}
	for i, c := range p.cols {
		t.byName[strings.ToLower(c.Name)] = i
	}
	d.mu.Lock()
	d.tables[strings.ToLower(p.name)] = t
	d.mu.Unlock()
}

func makeProto(dial gorm.Dialector, m interface{}) *tableProto {
	s, err := schema.Parse(m, &schemaCache, schema.NamingStrategy{})
	if err != nil {
		panic(err)
	}
	p := &tableProto{name: s.Table}
	idx := map[string]int{}
	for _, n := range s.DBNames {
		f := s.FieldsByDBName[n]
		if f.IgnoreMigration {
			continue
		}
		dt := dial.DataTypeOf(f)
		c := &Column{Name: n, Type: dt, NotNull: f.NotNull || f.PrimaryKey, AutoInc: f.AutoIncrement}
		typeInfo(c, dt)
		if f.HasDefaultValue && f.DefaultValue != "" && f.DefaultValue != "(-)" && f.DefaultValueInterface == nil {
			v := strings.Trim(f.DefaultValue, "'\"")
			c.HasDef = true
			if strings.EqualFold(v, "null") {
				c.Def = nil
			} else if strings.HasPrefix(strings.ToUpper(v), "CURRENT_TIMESTAMP") || strings.EqualFold(v, "now()") {
				c.HasDef = false
			} else {
				c.Def = c.coerce(v)
			}
		} else if f.HasDefaultValue && f.DefaultValueInterface != nil {
			c.HasDef = true
			c.Def = c.coerce(fromGo(f.DefaultValueInterface))
		}
		idx[n] = len(p.cols)
		p.cols = append(p.cols, c)
		if f.Unique {
			p.uniques = append(p.uniques, unique{"uni_" + n, []int{idx[n]}})
		}
	}
	for _, f := range s.PrimaryFields {
		p.pk = append(p.pk, idx[f.DBName])
	}
	ixs := s.ParseIndexes()
	var names []string
	for n := range ixs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		ix := ixs[n]
		if ix.Class != "UNIQUE" {
			continue
		}
		u := unique{name: n}
		for _, f := range ix.Fields {
			u.cols = append(u.cols, idx[f.DBName])
		}
		p.uniques = append(p.uniques, u)
	}
	return p
}

func fromGo(v interface{}) Value {
	switch x := v.(type) {
	case bool:
		return b2v(x)
	case int:
		return int64(x)
	case int64:
		return x
	case uint64:
		return int64(x)
	case []byte:
		return string(x)
	}
	return v
}

func typeInfo(c *Column, dt string) {
	l := strings.ToLower(dt)
	n := 0
	if i := strings.IndexByte(l, '('); i >= 0 {
		fmt.Sscanf(l[i+1:], "%d", &n)
	}
	uns := strings.Contains(l, "unsigned")
	has := func(p string) bool { return strings.HasPrefix(l, p) }
	rng := func(bits uint) {
		c.Kind = kInt
		if uns {
			c.Min, c.Max = 0, int64(uint64(1)<<(bits)-1)
			if bits == 64 {
				c.Max = 1<<63 - 1
			}
		} else {
			c.Min, c.Max = -(1 << (bits - 1)), 1<<(bits-1)-1
		}
	}
	switch {
	case has("tinyint"), has("boolean"), has("bool"):
		rng(8)
	case has("smallint"):
		rng(16)
	case has("mediumint"):
		rng(24)
	case has("bigint"):
		rng(64)
	case has("int"):
		rng(32)
	case has("float"), has("double"), has("decimal"):
		c.Kind = kFloat
	case has("datetime"), has("timestamp"):
		c.Kind, c.Prec = kTime, n
	case has("varchar"), has("char"):
		c.Kind, c.MaxChars = kString, n
	case has("tinytext"):
		c.Kind, c.MaxBytes = kString, 255
	case has("mediumtext"):
		c.Kind, c.MaxBytes = kString, 1<<24-1
	case has("longtext"), has("json"):
		c.Kind, c.MaxBytes = kString, 1<<31-1
	case has("text"):
		c.Kind, c.MaxBytes = kString, 65535
	case has("varbinary"), has("binary"):
		c.Kind, c.MaxBytes = kBlob, n
	case has("tinyblob"):
		c.Kind, c.MaxBytes = kBlob, 255
	case has("longblob"), has("mediumblob"):
		c.Kind, c.MaxBytes = kBlob, 1<<24-1
	case has("blob"):
		c.Kind, c.MaxBytes = kBlob, 65535
	default:
		panic("memsql: column type " + dt)
	}
}

// ---- direct access for oracles (never scheduled, never failing) ----

// Rows returns the committed rows of a table, keyed by column name, in PK order.
func (d *DB) Rows(table string) []map[string]Value {
	d.mu.Lock()
	defer d.mu.Unlock()
	t := d.tables[strings.ToLower(table)]
	if t == nil {
		panic("memsql: no table " + table)
	}
	var out []map[string]Value
	for _, r := range t.sorted() {
		v := r.latest()
		if v == nil {
			continue
		}
		m := map[string]Value{}
		for i, c := range t.Cols {
			m[c.Name] = v[i]
		}
		out = append(out, m)
	}
	return out
}

// Versions returns how many commits changed the database.
func (d *DB) Versions() int64 {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.ts
}

// Put inserts or replaces (by PK) a committed row directly.
func (d *DB) Put(table string, vals map[string]Value) {
	d.mu.Lock()
	defer d.mu.Unlock()
	t := d.tables[strings.ToLower(table)]
	v := make([]Value, len(t.Cols))
	for i, c := range t.Cols {
		x, ok := vals[c.Name]
		if !ok {
			if c.AutoInc {
				t.nextID++
				v[i] = t.nextID
			} else if c.HasDef {
				v[i] = c.Def
			}
			continue
		}
		v[i] = c.coerce(x)
		if c.AutoInc && v[i].(int64) > t.nextID {
			t.nextID = v[i].(int64)
		}
	}
	d.ts++
	for _, r := range t.rows {
		if cur := r.latest(); cur != nil && keyEq(cur, v, t.PK) {
			r.vers = append(r.vers, version{d.ts, v})
			return
		}
	}
	t.nextRow++
	t.rows = append(t.rows, &row{id: t.nextRow, tbl: t, vers: []version{{d.ts, v}}})
}

// DeleteWhere removes committed rows directly.
func (d *DB) DeleteWhere(table string, f func(map[string]Value) bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	t := d.tables[strings.ToLower(table)]
	d.ts++
	for _, r := range t.rows {
		cur := r.latest()
		if cur == nil {
			continue
		}
		m := map[string]Value{}
		for i, c := range t.Cols {
			m[c.Name] = cur[i]
		}
		if f(m) {
			r.vers = append(r.vers, version{d.ts, nil})
		}
	}
}

// ActiveTx reports how many transactions are open.
func (d *DB) ActiveTx() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.active)
}

// LockHolders reports rows locked per process (diagnostics).
func (d *DB) LockHolders() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	n := 0
	for t := range d.active {
		n += len(t.locks)
	}
	return n
}

// Hash is a cheap canonical digest of the committed state with times relative to now.
func (d *DB) Hash(now time.Time) uint64 {
	d.mu.Lock()
	defer d.mu.Unlock()
	h := uint64(14695981039346656037)
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	var names []string
	for n := range d.tables {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		add(n)
		t := d.tables[n]
		for _, r := range t.rows {
			for _, v := range [][]Value{r.latest(), pendVals(r)} {
				if v == nil {
					add("-")
					continue
				}
				for i, x := range v {
					if t.Cols[i].Kind == kTime && x != nil {
						add(x.(time.Time).Sub(now).String())
					} else if s, ok := x.(string); ok && len(s) >= 20 {
						add("s") // ids and payloads are execution specific
					} else {
						add(fmt.Sprint(x))
					}
				}
			}
			if r.owner != nil {
				add("L" + r.owner.proc.Name)
			}
			if n := len(r.share); n > 0 {
				add(fmt.Sprint("S", n))
			}
		}
	}
	return h
}

func pendVals(r *row) []Value {
	if r.pend == nil {
		return nil
	}
	return r.pend.vals
}
