package checks

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	exmysql "github.com/bytedance/dddfirework/executor/mysql"
	"gorm.io/datatypes"
	"gorm.io/driver/mysql"
	"gorm.io/gorm"
	"gorm.io/gorm/logger"

	"verif/mc/explore"
	"verif/mc/memsql"
	"verif/mc/world"
)

// ---- models with every supported kind of field

type Geo struct {
	City string
	Zip  int
}

type Inner struct {
	Note string
	Geo  Geo `gorm:" Embedded; EmbeddedPrefix:g_"`
}

type Stamp struct {
	Ver  int
	Memo string
}

// Decimal is a value type with unexported content, like decimal libraries have.
type Decimal struct{ n *big.Int }

func (d Decimal) Value() (driver.Value, error) {
	if d.n == nil {
		return "0", nil
	}
	return d.n.String(), nil
}

func (d *Decimal) Scan(v interface{}) error {
	d.n = new(big.Int)
	_, err := fmt.Sscan(strings.Trim(fmt.Sprintf("%s", v), " "), d.n)
	return err
}

// Part is stored serialized; it keeps an unexported cache.
type Part struct {
	A     string
	B     *int
	cache []string
}

type Level int

type WidePO struct {
	Stamp
	ID    string `gorm:"primaryKey;size:32"`
	Str   string
	Num   int64
	U8    uint8
	Flag  bool
	Flt   float64
	PStr  *string
	PInt  *int
	PFlag *bool
	At    time.Time
	PAt   *time.Time
	NStr  sql.NullString
	NInt  sql.NullInt64
	Raw   []byte
	JSON  datatypes.JSON
	Tags  []string       `gorm:"type:json;serializer:json"`
	Dict  map[string]int `gorm:"type:json;serializer:json"`
	Obj   Part           `gorm:"type:json;serializer:json"`
	PObj  *Part          `gorm:"type:json;serializer:json"`
	Objs  []*Part        `gorm:"type:json;serializer:json"`
	Any   interface{}    `gorm:"type:json;serializer:json"`
	Home  Geo            `gorm:"embedded;embeddedPrefix:home_"`
	Work  *Geo           `gorm:"embedded;embeddedPrefix:work_"`
	Deep  Inner          `gorm:"embedded;embeddedPrefix:deep_"`
	Price Decimal        `gorm:"type:varchar(32)"`
	Code  string         `gorm:"column:kode"`
	Lvl   Level
	U64   uint64
	Arr   [2]int           `gorm:"type:json;serializer:json"`
	MapP  map[string]*Part `gorm:"type:json;serializer:json"`
	Skip  string           `gorm:"-"`
}

func (w *WidePO) GetID() string     { return w.ID }
func (w *WidePO) TableName() string { return "wide" }

// PairPO has a composite key.
type PairPO struct {
	Tenant string `gorm:"primaryKey;size:32"`
	Idx    int    `gorm:"primaryKey;autoIncrement:false"`
	A      int
	B      string
}

func (p *PairPO) GetID() string     { return fmt.Sprintf("%s#%d", p.Tenant, p.Idx) }
func (p *PairPO) TableName() string { return "pairs" }

// KeyPO has a key column named like a reserved word.
type KeyPO struct {
	Key   string `gorm:"primaryKey;size:32"`
	Order int
}

func (k *KeyPO) GetID() string     { return k.Key }
func (k *KeyPO) TableName() string { return "keyed" }

// TriPO has a key of three parts.
type TriPO struct {
	Tenant string `gorm:"primaryKey;size:32"`
	Idx    int    `gorm:"primaryKey;autoIncrement:false"`
	Kind   string `gorm:"primaryKey;size:32"`
	A      int
	B      string
}

func (p *TriPO) GetID() string     { return fmt.Sprintf("%s#%d#%s", p.Tenant, p.Idx, p.Kind) }
func (p *TriPO) TableName() string { return "triples" }

// fval is one value of a field: how to set it and the columns it is stored in.
type fval struct {
	name string
	set  func(w *WidePO)
	cols map[string]memsql.Value
}

type fdom struct {
	name string
	vals []fval
}

func js(v interface{}) memsql.Value {
	b, _ := json.Marshal(v)
	return string(b)
}

var t1 = time.Date(2024, 5, 6, 7, 8, 9, 123e6, time.UTC)
var t2 = time.Date(1999, 12, 31, 23, 59, 59, 0, time.UTC)
var t3 = t1.Add(time.Millisecond)

func domains() []fdom {
	c := func(k string, v memsql.Value) map[string]memsql.Value { return map[string]memsql.Value{k: v} }
	sp := func(s string) *string { return &s }
	ip := func(i int) *int { return &i }
	bp := func(b bool) *bool { return &b }
	var ds []fdom
	add := func(n string, vs ...fval) { ds = append(ds, fdom{n, vs}) }
	strs := func(n, col string, set func(w *WidePO, s string)) {
		var vs []fval
		for _, s := range []string{"", "a", "b", "A", "a ", "名"} {
			s := s
			vs = append(vs, fval{s, func(w *WidePO) { set(w, s) }, c(col, s)})
		}
		add(n, vs...)
	}
	strs("Str", "str", func(w *WidePO, s string) { w.Str = s })
	strs("Code", "kode", func(w *WidePO, s string) { w.Code = s })
	strs("Memo", "memo", func(w *WidePO, s string) { w.Memo = s })
	strs("HomeCity", "home_city", func(w *WidePO, s string) { w.Home.City = s })
	strs("DeepNote", "deep_note", func(w *WidePO, s string) { w.Deep.Note = s })
	strs("DeepCity", "deep_g_city", func(w *WidePO, s string) { w.Deep.Geo.City = s })
	ints := func(n, col string, set func(w *WidePO, i int)) {
		var vs []fval
		for _, i := range []int{0, 1, 2} {
			i := i
			vs = append(vs, fval{fmt.Sprint(i), func(w *WidePO) { set(w, i) }, c(col, int64(i))})
		}
		add(n, vs...)
	}
	ints("Num", "num", func(w *WidePO, i int) { w.Num = int64(i) })
	num := len(ds) - 1
	for i, n := range []int64{1 << 60, 1<<60 + 1, -1} {
		n := n
		ds[num].vals = append(ds[num].vals, fval{fmt.Sprint("big", i), func(w *WidePO) { w.Num = n }, c("num", n)})
	}
	ints("U8", "u8", func(w *WidePO, i int) { w.U8 = uint8(i) })
	ints("Ver", "ver", func(w *WidePO, i int) { w.Ver = i })
	ints("Lvl", "lvl", func(w *WidePO, i int) { w.Lvl = Level(i) })
	ints("HomeZip", "home_zip", func(w *WidePO, i int) { w.Home.Zip = i })
	ints("DeepZip", "deep_g_zip", func(w *WidePO, i int) { w.Deep.Geo.Zip = i })
	add("Flag", fval{"f", func(w *WidePO) { w.Flag = false }, c("flag", int64(0))}, fval{"t", func(w *WidePO) { w.Flag = true }, c("flag", int64(1))})
	add("Flt", fval{"0", func(w *WidePO) { w.Flt = 0 }, c("flt", 0.0)}, fval{"1.5", func(w *WidePO) { w.Flt = 1.5 }, c("flt", 1.5)}, fval{"-2", func(w *WidePO) { w.Flt = -2 }, c("flt", -2.0)}, fval{"-1.5", func(w *WidePO) { w.Flt = -1.5 }, c("flt", -1.5)}, fval{"1.5+", func(w *WidePO) { w.Flt = 1.5 + 1e-12 }, c("flt", 1.5+1e-12)})
	add("PStr", fval{"nil", func(w *WidePO) {}, c("p_str", nil)}, fval{"", func(w *WidePO) { w.PStr = sp("") }, c("p_str", "")}, fval{"a", func(w *WidePO) { w.PStr = sp("a") }, c("p_str", "a")}, fval{"b", func(w *WidePO) { w.PStr = sp("b") }, c("p_str", "b")})
	add("PInt", fval{"nil", func(w *WidePO) {}, c("p_int", nil)}, fval{"0", func(w *WidePO) { w.PInt = ip(0) }, c("p_int", int64(0))}, fval{"1", func(w *WidePO) { w.PInt = ip(1) }, c("p_int", int64(1))}, fval{"2^32+1", func(w *WidePO) { w.PInt = ip(1<<32 + 1) }, c("p_int", int64(1<<32+1))})
	add("PFlag", fval{"nil", func(w *WidePO) {}, c("p_flag", nil)}, fval{"f", func(w *WidePO) { w.PFlag = bp(false) }, c("p_flag", int64(0))}, fval{"t", func(w *WidePO) { w.PFlag = bp(true) }, c("p_flag", int64(1))})
	add("At", fval{"1", func(w *WidePO) { w.At = t1 }, c("at", t1)}, fval{"2", func(w *WidePO) { w.At = t2 }, c("at", t2)}, fval{"3", func(w *WidePO) { w.At = t3 }, c("at", t3)})
	add("PAt", fval{"nil", func(w *WidePO) {}, c("p_at", nil)}, fval{"1", func(w *WidePO) { t := t1; w.PAt = &t }, c("p_at", t1)}, fval{"3", func(w *WidePO) { t := t3; w.PAt = &t }, c("p_at", t3)})
	add("NStr", fval{"null", func(w *WidePO) {}, c("n_str", nil)}, fval{"", func(w *WidePO) { w.NStr = sql.NullString{Valid: true} }, c("n_str", "")}, fval{"a", func(w *WidePO) { w.NStr = sql.NullString{String: "a", Valid: true} }, c("n_str", "a")})
	add("NInt", fval{"null", func(w *WidePO) {}, c("n_int", nil)}, fval{"0", func(w *WidePO) { w.NInt = sql.NullInt64{Valid: true} }, c("n_int", int64(0))}, fval{"1", func(w *WidePO) { w.NInt = sql.NullInt64{Int64: 1, Valid: true} }, c("n_int", int64(1))})
	add("Raw", fval{"nil", func(w *WidePO) {}, c("raw", nil)}, fval{"a", func(w *WidePO) { w.Raw = []byte("a") }, c("raw", "a")}, fval{"empty", func(w *WidePO) { w.Raw = []byte{} }, c("raw", "")}, fval{"b", func(w *WidePO) { w.Raw = []byte{0xff, 0} }, c("raw", "\xff\x00")})
	add("JSON", fval{"nil", func(w *WidePO) {}, c("json", nil)}, fval{"1", func(w *WidePO) { w.JSON = datatypes.JSON(`{"a":1}`) }, c("json", `{"a":1}`)}, fval{"2", func(w *WidePO) { w.JSON = datatypes.JSON(`{"a":2}`) }, c("json", `{"a":2}`)})
	tags := func(v []string) fval { return fval{fmt.Sprint(v), func(w *WidePO) { w.Tags = v }, c("tags", js(v))} }
	add("Tags", tags([]string{"x"}), tags([]string{"x", "y"}), tags([]string{"y"}), tags([]string{}), tags([]string{"y", "x"}), fval{"nil", func(w *WidePO) {}, c("tags", nil)})
	dict := func(v map[string]int) fval {
		return fval{fmt.Sprint(v), func(w *WidePO) { w.Dict = v }, c("dict", js(v))}
	}
	add("Dict", dict(map[string]int{"a": 1}), dict(map[string]int{"a": 2}), dict(map[string]int{}), dict(map[string]int{"b": 1}), fval{"nil", func(w *WidePO) {}, c("dict", nil)})
	obj := func(a string, b *int) fval {
		return fval{fmt.Sprint(a, b != nil), func(w *WidePO) {
			w.Obj = Part{A: a, B: b}
			if b != nil {
				n := *b
				w.Obj.B = &n
				w.Obj.cache = []string{"c"}
			}
		}, c("obj", js(Part{A: a, B: b}))}
	}
	add("Obj", obj("", nil), obj("a", nil), obj("a", ip(0)), obj("a", ip(1)))
	add("PObj", fval{"nil", func(w *WidePO) {}, c("p_obj", nil)}, fval{"zero", func(w *WidePO) { w.PObj = &Part{} }, c("p_obj", js(Part{}))}, fval{"a", func(w *WidePO) { w.PObj = &Part{A: "a"} }, c("p_obj", js(Part{A: "a"}))}, fval{"b", func(w *WidePO) { w.PObj = &Part{A: "a", B: ip(3), cache: []string{"z"}} }, c("p_obj", js(Part{A: "a", B: ip(3)}))})
	add("Objs", fval{"1", func(w *WidePO) { w.Objs = []*Part{{A: "a"}} }, c("objs", js([]*Part{{A: "a"}}))}, fval{"2", func(w *WidePO) { w.Objs = []*Part{{A: "b"}} }, c("objs", js([]*Part{{A: "b"}}))}, fval{"3", func(w *WidePO) { w.Objs = []*Part{{A: "a"}, {B: ip(1)}} }, c("objs", js([]*Part{{A: "a"}, {B: ip(1)}}))})
	add("Any", fval{"s", func(w *WidePO) { w.Any = "s" }, c("any", js("s"))}, fval{"n", func(w *WidePO) { w.Any = 1 }, c("any", js(1))}, fval{"l", func(w *WidePO) { w.Any = []string{"a"} }, c("any", js([]string{"a"}))}, fval{"m", func(w *WidePO) { w.Any = map[string]interface{}{"k": 1} }, c("any", js(map[string]int{"k": 1}))})
	work := func(g *Geo) fval {
		if g == nil {
			return fval{"nil", func(w *WidePO) {}, map[string]memsql.Value{"work_city": nilZero{""}, "work_zip": nilZero{int64(0)}}}
		}
		return fval{fmt.Sprint(*g), func(w *WidePO) { n := *g; w.Work = &n }, map[string]memsql.Value{"work_city": g.City, "work_zip": int64(g.Zip)}}
	}
	add("Work", work(nil), work(&Geo{}), work(&Geo{"w", 0}), work(&Geo{"", 7}), work(&Geo{"v", 7}))
	dec := func(n int64) fval {
		return fval{fmt.Sprint(n), func(w *WidePO) { w.Price.n = big.NewInt(n) }, c("price", fmt.Sprint(n))}
	}
	add("Price", dec(1), dec(0), dec(12345))
	add("U64", fval{"0", func(w *WidePO) {}, c("u64", int64(0))}, fval{"1", func(w *WidePO) { w.U64 = 1 }, c("u64", int64(1))}, fval{"2^32+1", func(w *WidePO) { w.U64 = 1<<32 + 1 }, c("u64", int64(1<<32+1))}, fval{"big", func(w *WidePO) { w.U64 = 1<<63 - 1 }, c("u64", int64(1<<63-1))})
	arr := func(v [2]int) fval { return fval{fmt.Sprint(v), func(w *WidePO) { w.Arr = v }, c("arr", js(v))} }
	add("Arr", arr([2]int{}), arr([2]int{1, 0}), arr([2]int{1, 2}))
	mapp := func(k string, a string) fval {
		return fval{k + a, func(w *WidePO) { w.MapP = map[string]*Part{k: {A: a}} }, c("map_p", js(map[string]*Part{k: {A: a}}))}
	}
	add("MapP", mapp("k", "a"), mapp("k", "b"), mapp("l", "b"), fval{"nil", func(w *WidePO) {}, c("map_p", nil)})
	// long values that differ only at the end
	for _, end := range []string{"x", "y"} {
		for _, d := range []int{9000, 70000} {
			end, long := end, strings.Repeat("0123456789", d/10)
			for i := range ds {
				var v fval
				switch ds[i].name {
				case "Memo":
					v = fval{"", func(w *WidePO) { w.Memo = long + end }, c("memo", long+end)}
				case "Raw":
					v = fval{"", func(w *WidePO) { w.Raw = []byte(long + end) }, c("raw", long+end)}
				case "JSON":
					s := `{"l":"` + long + end + `"}`
					v = fval{"", func(w *WidePO) { w.JSON = datatypes.JSON(s) }, c("json", s)}
				case "Tags":
					l := strings.Split(strings.Repeat("tag ", d/100)+end, " ")
					v = tags(l)
				case "Dict":
					m := map[string]int{"end": len(end + long)}
					for n := 0; n < d/100; n++ {
						m[fmt.Sprint(n)] = n
					}
					m["last"] = int(end[0])
					v = dict(m)
				default:
					continue
				}
				v.name = fmt.Sprintf("%d...%s", d, end)
				ds[i].vals = append(ds[i].vals, v)
			}
		}
	}
	add("Skip", fval{"1", func(w *WidePO) { w.Skip = "1" }, nil}, fval{"2", func(w *WidePO) { w.Skip = "2" }, nil})
	return ds
}

var doms = domains()

// third values a concurrent writer leaves in columns
func third(v memsql.Value, col string) memsql.Value {
	switch col {
	case "at", "p_at":
		return time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC)
	case "json", "tags", "dict", "obj", "p_obj", "objs", "any", "arr", "map_p":
		return `"third"`
	case "num", "u8", "u64", "ver", "lvl", "home_zip", "deep_g_zip", "p_int", "n_int", "work_zip", "flag", "p_flag":
		return int64(77)
	case "flt":
		return 7.75
	}
	return "third"
}

// wrow makes a model and its expected columns from one value index per domain.
func wrow(id string, idx map[int]int) (*WidePO, map[string]memsql.Value) {
	w := &WidePO{ID: id}
	cols := map[string]memsql.Value{"id": id}
	for i, d := range doms {
		v := d.vals[idx[i]]
		v.set(w)
		for k, x := range v.cols {
			cols[k] = x
		}
	}
	return w, cols
}

type diffSys struct {
	x  *explore.X
	w  *world.World
	ex *exmysql.Executor
	q  []string
}

var warmOnce sync.Once

// warm lets the executor parse the models outside of a bubble, as channels in
// its process-wide schema cache must not belong to one execution.
func warm() {
	warmOnce.Do(func() {
		d := memsql.New()
		prec := 3
		dial := mysql.New(mysql.Config{SkipInitializeWithVersion: true, DefaultDatetimePrecision: &prec})
		db, err := gorm.Open(mysql.New(mysql.Config{Conn: sql.OpenDB(d.Connector(memsql.NewProc("warm"))), SkipInitializeWithVersion: true}), &gorm.Config{Logger: logger.Discard, TranslateError: true})
		if err != nil {
			panic(err)
		}
		ex := exmysql.NewExecutor(db)
		for _, m := range append(engModels(), &WidePO{}, &PairPO{}, &TriPO{}, &KeyPO{}, &acctPO{}) {
			d.AddModel(dial, m)
			v := func() ddd.IModel { return reflect.New(reflect.TypeOf(m).Elem()).Interface().(ddd.IModel) }
			_ = ex.Exec(context.Background(), &ddd.Action{Op: ddd.OpInsert, Models: []ddd.IModel{v()}})
			_ = ex.Exec(context.Background(), &ddd.Action{Op: ddd.OpUpdate, Models: []ddd.IModel{v()}, PrevModels: []ddd.IModel{v()}})
			_ = ex.Exec(context.Background(), &ddd.Action{Op: ddd.OpDelete, Models: []ddd.IModel{v()}})
		}
	})
}

func sqlExec(x *explore.X, models []interface{}, f func(s *diffSys)) {
	warm()
	world.Run(x, world.Config{}, func(w *world.World) {
		w.AddModels(models...)
		s := &diffSys{x: x, w: w}
		w.Setup(func() {
			p := w.NewProc("P")
			s.ex = exmysql.NewExecutor(p.DB)
			f(s)
		})
	})
}

// nilZero is a column of an embedded struct pointer that is nil: gorm allocates
// the struct while assigning, so it stores NULL or the zero value.
type nilZero struct{ zero memsql.Value }

func valEq(a, b memsql.Value) bool {
	if n, ok := b.(nilZero); ok {
		return a == nil || a == b || a == n.zero
	}
	if _, ok := a.(nilZero); ok {
		return false
	}
	ta, ok := a.(time.Time)
	tb, ok2 := b.(time.Time)
	if ok && ok2 {
		return ta.Equal(tb)
	}
	if sa, ok := a.(string); ok {
		if sb, ok := b.(string); ok && len(sa) > 0 && (sa[0] == '{' || sa[0] == '[') {
			var x, y interface{}
			if json.Unmarshal([]byte(sa), &x) == nil && json.Unmarshal([]byte(sb), &y) == nil {
				return reflect.DeepEqual(x, y)
			}
		}
	}
	return reflect.DeepEqual(a, b)
}

// rowsOf returns a table by key.
func (s *diffSys) rowsOf(tbl string, key func(r map[string]memsql.Value) string) map[string]map[string]memsql.Value {
	m := map[string]map[string]memsql.Value{}
	for _, r := range s.w.DB.Rows(tbl) {
		m[key(r)] = r
	}
	return m
}

func idKey(r map[string]memsql.Value) string { return fmt.Sprint(r["id"]) }

// same compares the table with what is expected.
func (s *diffSys) same(sig, tbl string, key func(r map[string]memsql.Value) string, want map[string]map[string]memsql.Value, what string) {
	got := s.rowsOf(tbl, key)
	var ks []string
	for k := range got {
		if want[k] == nil {
			s.x.Failf(sig+"-extra", "%s: row %s must not exist", what, k)
		}
	}
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if got[k] == nil {
			s.x.Failf(sig+"-missing", "%s: row %s is missing", what, k)
			continue
		}
		var l []string
		for c, v := range want[k] {
			if !valEq(got[k][c], v) {
				l = append(l, fmt.Sprintf("%s is %v instead of %v", c, got[k][c], v))
			}
		}
		sort.Strings(l)
		if len(l) > 0 {
			s.x.Failf(sig, "%s: row %s: %s", what, k, strings.Join(l, ", "))
		}
	}
}

func (s *diffSys) do(op ddd.OpType, cur, prev []ddd.IModel) error {
	a := &ddd.Action{Op: op, Models: cur, PrevModels: prev}
	err := s.ex.Exec(context.Background(), a)
	s.x.StepStr(fmt.Sprint(op, len(cur), err))
	if err != nil {
		s.x.Failf("error", "operation %d of %d models failed: %v", op, len(cur), err)
	}
	return err
}

// change inserts rows, lets a concurrent writer change all columns the command
// does not, updates them in one batch and compares.
func (s *diffSys) change(prev, cur []map[int]int) {
	what := ""
	want := map[string]map[string]memsql.Value{}
	var pm, cm []ddd.IModel
	for i := range prev {
		id := fmt.Sprintf("w%d", i)
		p, pc := wrow(id, prev[i])
		c, cc := wrow(id, cur[i])
		pm, cm = append(pm, p), append(cm, c)
		want[id] = pc
		for d := range doms {
			if prev[i][d] != cur[i][d] {
				what += fmt.Sprintf("%s.%s %s->%s ", id, doms[d].name, doms[d].vals[prev[i][d]].name, doms[d].vals[cur[i][d]].name)
			}
		}
		_ = cc
	}
	s.x.StepStr(what)
	by, bc := wrow("zz", prev[0])
	want["zz"] = bc
	if s.do(ddd.OpInsert, append(append([]ddd.IModel{}, pm...), by), nil) != nil {
		return
	}
	s.same("insert", "wide", idKey, want, "insert")
	for i := range prev {
		id := fmt.Sprintf("w%d", i)
		_, pc := wrow(id, prev[i])
		_, cc := wrow(id, cur[i])
		put := map[string]memsql.Value{"id": id}
		for k, v := range pc {
			if k == "id" {
				continue
			}
			_, nz := v.(nilZero)
			_, nzc := cc[k].(nilZero)
			if nz == nzc && valEq(v, cc[k]) {
				put[k] = third(v, k)
				want[id][k] = put[k]
			} else {
				put[k] = v
				if nz {
					put[k] = nil
				}
				want[id][k] = cc[k]
			}
		}
		s.w.DB.DeleteWhere("wide", func(r map[string]memsql.Value) bool { return r["id"] == id })
		s.w.DB.Put("wide", put)
	}
	if s.do(ddd.OpUpdate, cm, pm) != nil {
		return
	}
	s.same("update", "wide", idKey, want, what)
	s.x.Outcome("%s", what)
}

func baseIdx(x *explore.X) map[int]int {
	m := map[int]int{}
	b := x.Pick("base", 2)
	for i := range doms {
		m[i] = b
	}
	return m
}

func cp(m map[int]int) map[int]int {
	n := map[int]int{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// scnDiff1: one field, every pair of its values, every base.
func scnDiff1(x *explore.X) {
	sqlExec(x, []interface{}{&WidePO{}}, func(s *diffSys) {
		p := baseIdx(x)
		d := x.Pick("field", len(doms))
		c := cp(p)
		p[d] = x.Pick("before", len(doms[d].vals))
		c[d] = x.Pick("after", len(doms[d].vals))
		s.change([]map[int]int{p}, []map[int]int{c})
	})
}

// scnDiff2: two fields.
func scnDiff2(x *explore.X) {
	sqlExec(x, []interface{}{&WidePO{}}, func(s *diffSys) {
		p := baseIdx(x)
		d := x.Pick("field", len(doms)-1)
		e := d + 1 + x.Pick("field", len(doms)-d-1)
		c := cp(p)
		lim := func(n int) int {
			if x.Bound() > 0 {
				return n
			}
			return min(n, 3)
		}
		p[d], c[d] = x.Pick("before", lim(len(doms[d].vals))), x.Pick("after", lim(len(doms[d].vals)))
		p[e], c[e] = x.Pick("before", lim(len(doms[e].vals))), x.Pick("after", lim(len(doms[e].vals)))
		s.change([]map[int]int{p}, []map[int]int{c})
	})
}

// scnDiff3: three fields, two values each; more values with the bound.
func scnDiff3(x *explore.X) {
	sqlExec(x, []interface{}{&WidePO{}}, func(s *diffSys) {
		p := map[int]int{}
		var ds []int
		from := 0
		for i := 0; i < 3; i++ {
			d := from + x.Pick("field", len(doms)-from-2+i)
			ds = append(ds, d)
			from = d + 1
		}
		c := cp(p)
		for _, d := range ds {
			n := min(len(doms[d].vals), 2+x.Bound())
			p[d] = x.Pick("before", n)
			c[d] = x.Pick("after", n)
		}
		s.change([]map[int]int{p}, []map[int]int{c})
	})
}

// scnBatch: batches of up to three updates changing different columns.
func scnBatch(x *explore.X) {
	var sel []int
	for i, d := range doms {
		switch d.name {
		case "Str", "HomeCity", "Work", "PInt", "Tags":
			sel = append(sel, i)
		}
	}
	sqlExec(x, []interface{}{&WidePO{}}, func(s *diffSys) {
		n := 2 + x.Pick("rows", 2)
		var ps, cs []map[int]int
		for i := 0; i < n; i++ {
			p := map[int]int{}
			c := cp(p)
			if k := x.Pick("field", len(sel)+1); k > 0 {
				p[sel[k-1]] = x.Pick("before", 2)
				c[sel[k-1]] = 1 - p[sel[k-1]]
			}
			ps, cs = append(ps, p), append(cs, c)
		}
		s.change(ps, cs)
	})
}

// scnAll: all fields change at once.
func scnAll(x *explore.X) {
	sqlExec(x, []interface{}{&WidePO{}}, func(s *diffSys) {
		p, c := map[int]int{}, map[int]int{}
		a, b := x.Pick("before", 6), x.Pick("after", 6)
		for i, d := range doms {
			p[i], c[i] = a%len(d.vals), b%len(d.vals)
		}
		s.change([]map[int]int{p}, []map[int]int{c})
	})
}

// scnWhole: an update that does not say what was there before writes everything.
func scnWhole(x *explore.X) {
	sqlExec(x, []interface{}{&WidePO{}}, func(s *diffSys) {
		n := 1 + x.Pick("rows", 2)
		a, b := x.Pick("before", 6), x.Pick("after", 6)
		want := map[string]map[string]memsql.Value{}
		var pm, cm []ddd.IModel
		for i := 0; i < 3; i++ {
			p, c := map[int]int{}, map[int]int{}
			for k, d := range doms {
				p[k], c[k] = (a+i)%len(d.vals), (b+i)%len(d.vals)
			}
			id := fmt.Sprint("w", i)
			m, row := wrow(id, p)
			pm, want[id] = append(pm, m), row
			if i < n {
				m, row := wrow(id, c)
				cm, want[id] = append(cm, m), row
			}
		}
		if s.do(ddd.OpInsert, pm, nil) != nil || s.do(ddd.OpUpdate, cm, nil) != nil {
			return
		}
		s.same("whole", "wide", idKey, want, fmt.Sprintf("update of %d rows from %d to %d", n, a, b))
		s.x.Outcome("%d %d %d", n, a, b)
	})
}

// scnDelete: every subset of four rows deleted in one batch.
func scnDelete(x *explore.X) {
	sqlExec(x, []interface{}{&WidePO{}}, func(s *diffSys) {
		want := map[string]map[string]memsql.Value{}
		var all []ddd.IModel
		ids := []string{"a", "b", "a,b", "%", "0"}
		for _, id := range ids {
			m, c := wrow(id, map[int]int{})
			all = append(all, m)
			want[id] = c
		}
		if s.do(ddd.OpInsert, all, nil) != nil {
			return
		}
		mask := 1 + x.Pick("deleted", 1<<len(ids)-1)
		var del []ddd.IModel
		for i, m := range all {
			if mask>>i&1 == 1 {
				del = append(del, m)
				delete(want, ids[i])
			}
		}
		if x.Pick("order", 2) == 1 {
			for i, j := 0, len(del)-1; i < j; i, j = i+1, j-1 {
				del[i], del[j] = del[j], del[i]
			}
		}
		if s.do(ddd.OpDelete, del, nil) != nil {
			return
		}
		s.same("delete", "wide", idKey, want, fmt.Sprintf("delete %b", mask))
		s.x.Outcome("%b", mask)
	})
}

// scnPairs: rows with a composite key, whose parts may be zero.
func scnPairs(x *explore.X) {
	sqlExec(x, []interface{}{&PairPO{}}, func(s *diffSys) {
		key := func(r map[string]memsql.Value) string { return fmt.Sprintf("%v#%v", r["tenant"], r["idx"]) }
		want := map[string]map[string]memsql.Value{}
		var all []*PairPO
		for _, t := range []string{"", "t", "u"} {
			for i := 0; i < 3; i++ {
				if t == "" && i == 0 {
					continue // has no identity
				}
				p := &PairPO{Tenant: t, Idx: i, A: 1, B: "b"}
				all = append(all, p)
				want[p.GetID()] = map[string]memsql.Value{"tenant": t, "idx": int64(i), "a": int64(1), "b": "b"}
			}
		}
		var ins []ddd.IModel
		for _, p := range all {
			ins = append(ins, p)
		}
		if s.do(ddd.OpInsert, ins, nil) != nil {
			return
		}
		s.same("insert", "pairs", key, want, "insert")
		op := []ddd.OpType{ddd.OpUpdate, ddd.OpDelete}[x.Pick("operation", 2)]
		var cur, prev []ddd.IModel
		n := 1 + x.Pick("rows", 2)
		first := -1
		for i := 0; i < n; i++ {
			k := x.Pick("row", len(all))
			if k <= first {
				return
			}
			first = k
			p := *all[k]
			c := p
			if op == ddd.OpUpdate {
				switch x.Pick("change", 4) {
				case 0:
					c.A = 2
				case 1:
					c.A = 0
				case 2:
					c.B = ""
				case 3:
					c.A, c.B = 3, "c"
				}
				want[p.GetID()]["a"], want[p.GetID()]["b"] = int64(c.A), c.B
			} else {
				delete(want, p.GetID())
			}
			cur, prev = append(cur, &c), append(prev, &p)
			s.x.StepStr(fmt.Sprint(op, p, c))
		}
		if op == ddd.OpDelete {
			prev = nil
		}
		if s.do(op, cur, prev) != nil {
			return
		}
		s.same("composite", "pairs", key, want, fmt.Sprintf("operation %d on %d rows starting with %s", op, n, cur[0].GetID()))
		s.x.Outcome("%d %d", op, n)
	})
}

// scnTriples: rows with a key of three parts.
func scnTriples(x *explore.X) {
	sqlExec(x, []interface{}{&TriPO{}}, func(s *diffSys) {
		key := func(r map[string]memsql.Value) string {
			return fmt.Sprintf("%v#%v#%v", r["tenant"], r["idx"], r["kind"])
		}
		want := map[string]map[string]memsql.Value{}
		var all []*TriPO
		var ins []ddd.IModel
		for i := 1; i < 8; i++ {
			p := &TriPO{Tenant: []string{"", "t"}[i&1], Idx: i >> 1 & 1, Kind: []string{"", "k"}[i>>2], A: 1, B: "b"}
			all, ins = append(all, p), append(ins, p)
			want[p.GetID()] = map[string]memsql.Value{"tenant": p.Tenant, "idx": int64(p.Idx), "kind": p.Kind, "a": int64(1), "b": "b"}
		}
		if s.do(ddd.OpInsert, ins, nil) != nil {
			return
		}
		op := []ddd.OpType{ddd.OpUpdate, ddd.OpDelete}[x.Pick("operation", 2)]
		var cur, prev []ddd.IModel
		for i, n := 0, 1+x.Pick("rows", 2); i < n; i++ {
			p := *all[x.Pick("row", len(all))]
			if i > 0 && cur[0].GetID() == p.GetID() {
				return
			}
			c := p
			if op == ddd.OpUpdate {
				c.A, c.B = x.Pick("a", 3), []string{"b", ""}[x.Pick("b", 2)]
				want[p.GetID()]["a"], want[p.GetID()]["b"] = int64(c.A), c.B
				prev = append(prev, &p)
			} else {
				delete(want, p.GetID())
			}
			cur = append(cur, &c)
			s.x.StepStr(fmt.Sprint(op, p, c))
		}
		if s.do(op, cur, prev) != nil {
			return
		}
		s.same("composite", "triples", key, want, fmt.Sprintf("operation %d on %d rows starting with %s", op, len(cur), cur[0].GetID()))
		s.x.Outcome("%d %d", op, len(cur))
	})
}

// scnKeyed: rows whose columns are named like reserved words.
func scnKeyed(x *explore.X) {
	sqlExec(x, []interface{}{&KeyPO{}}, func(s *diffSys) {
		key := func(r map[string]memsql.Value) string { return fmt.Sprint(r["key"]) }
		want := map[string]map[string]memsql.Value{}
		var all []ddd.IModel
		for _, id := range []string{"a", "b", "c"} {
			all = append(all, &KeyPO{id, 1})
			want[id] = map[string]memsql.Value{"key": id, "order": int64(1)}
		}
		if s.do(ddd.OpInsert, all, nil) != nil {
			return
		}
		op := []ddd.OpType{ddd.OpUpdate, ddd.OpDelete}[x.Pick("operation", 2)]
		mask := 1 + x.Pick("rows", 7)
		var cur, prev []ddd.IModel
		for i, m := range all {
			if mask>>i&1 == 0 {
				continue
			}
			p := m.(*KeyPO)
			if op == ddd.OpUpdate {
				prev = append(prev, p)
				c := &KeyPO{p.Key, 2 * x.Pick("order", 2)}
				cur = append(cur, c)
				want[p.Key]["order"] = int64(c.Order)
			} else {
				cur = append(cur, p)
				delete(want, p.Key)
			}
		}
		s.x.StepStr(fmt.Sprint(op, mask))
		if s.do(op, cur, prev) != nil {
			return
		}
		s.same("reserved", "keyed", key, want, fmt.Sprintf("operation %d on rows %b with reserved column names", op, mask))
		s.x.Outcome("%d %b", op, mask)
	})
}

// scnDiffMany: batches of many rows.
func scnDiffMany(x *explore.X) {
	sqlExec(x, []interface{}{&KidPO{}}, func(s *diffSys) {
		n := pickSize(x, fewer(x, manySizes[:30]))
		rev := x.Pick("order", 2) == 1
		op := x.Pick("operation", 6)
		id := func(i int) string { return fmt.Sprintf("m%04d", (i*7919)%(n+5)) }
		want := map[string]map[string]memsql.Value{}
		var all []ddd.IModel
		for i := 0; i < n+5; i++ {
			all = append(all, &KidPO{BasePO{id(i), "p", i % 7, 1}})
			want[id(i)] = map[string]memsql.Value{"id": id(i), "parent": "p", "a": int64(i % 7), "b": int64(1)}
		}
		if s.do(ddd.OpInsert, all, nil) != nil {
			return
		}
		s.same("insert", "kids", idKey, want, fmt.Sprintf("insert of %d rows", n+5))
		var cur, prev []ddd.IModel
		for i := 0; i < n; i++ {
			k := i
			if rev {
				k = n - 1 - i
			}
			p := *all[k].(*KidPO)
			c := p
			switch op {
			case 0, 1, 2: // updates of all, every third, the last
				if op == 1 && k%3 != 0 || op == 2 && i != n-1 {
					break
				}
				c.A = 9
				if k%2 == 0 {
					c.A, c.B = p.A, 0
				}
				if c.A != p.A {
					want[p.ID]["a"] = int64(c.A)
				}
				if c.B != p.B {
					want[p.ID]["b"] = int64(c.B)
				}
			case 3:
				delete(want, p.ID)
			case 4:
				if k%2 == 1 {
					continue
				}
				delete(want, p.ID)
			case 5:
				if i == n-1 && n > 1 {
					continue
				}
				delete(want, p.ID)
			}
			cur, prev = append(cur, &c), append(prev, &p)
		}
		o := ddd.OpUpdate
		if op > 2 {
			o, prev = ddd.OpDelete, nil
		}
		if s.do(o, cur, prev) != nil {
			return
		}
		s.same("many", "kids", idKey, want, fmt.Sprintf("operation %d on %d rows", op, n))
		s.x.Outcome("%d %d", op, n)
	})
}

// scnTaken: batches of new rows some of whose keys are taken.
func scnTaken(x *explore.X) {
	sqlExec(x, []interface{}{&WidePO{}}, func(s *diffSys) {
		want := map[string]map[string]memsql.Value{}
		var old []ddd.IModel
		for i := 0; i < 3; i++ {
			id := fmt.Sprint("w", i)
			m, c := wrow(id, map[int]int{0: 1})
			old, want[id] = append(old, m), c
		}
		if s.do(ddd.OpInsert, old, nil) != nil {
			return
		}
		n := 1 + x.Pick("rows", 4)
		taken := 1 + x.Pick("taken", 1<<n-1)
		var batch []ddd.IModel
		for i := 0; i < n; i++ {
			id := fmt.Sprint("n", i)
			if taken>>i&1 == 1 {
				id = fmt.Sprint("w", i%3)
			}
			m, _ := wrow(id, map[int]int{0: 2})
			batch = append(batch, m)
		}
		err := s.ex.Exec(context.Background(), &ddd.Action{Op: ddd.OpInsert, Models: batch})
		s.x.StepStr(fmt.Sprint(n, taken, err))
		if err == nil {
			s.x.Failf("taken-ok", "insert of %d rows succeeded although keys (%b) were taken", n, taken)
		}
		got := s.rowsOf("wide", idKey)
		for id := range want {
			if got[id] == nil || !valEq(got[id]["str"], want[id]["str"]) {
				s.x.Failf("taken-row", "insert of %d rows (taken: %b) changed the existing row %s: %v", n, taken, id, got[id]["str"])
			}
		}
		s.x.Outcome("%d %b", n, taken)
	})
}

func init() {
	add(&explore.Property{
		ID: "C13", Title: "updates write what changed",
		Rule:        "every pair of values of every one of 30 field kinds alone, every combination of two fields (three values each, all with the bound) and of three fields (two values each), all fields at once, batches of up to three rows, every subset of five rows deleted, batches of up to four new rows with every nonempty subset of their keys taken, every one or two of nine rows with composite (also zero) keys; a concurrent writer has changed every other column before the update",
		Assumptions: []string{"MySQL model (mc/memsql), strict mode (a zero time.Time cannot be stored in a datetime column and is not in the domain)", "tables as gorm would create them"},
		Scenarios: []*explore.Scenario{
			{Name: "diff-1", Doc: "one field", Run: scnDiff1},
			{Name: "diff-2", Doc: "two fields", Run: scnDiff2, Thorough: 1},
			{Name: "diff-3", Doc: "three fields", Run: scnDiff3, Thorough: 1},
			{Name: "diff-all", Doc: "all fields", Run: scnAll},
			{Name: "diff-batch", Doc: "batches", Run: scnBatch},
			{Name: "diff-many", Doc: "batches of up to 1029 rows", Run: scnDiffMany, Thorough: 1},
			{Name: "diff-taken", Doc: "inserts of taken keys", Run: scnTaken},
			{Name: "diff-whole", Doc: "updates without the previous content", Run: scnWhole},
			{Name: "diff-delete", Doc: "deletions", Run: scnDelete},
			{Name: "diff-composite", Doc: "composite keys", Run: scnPairs},
			{Name: "diff-triples", Doc: "composite keys of three parts", Run: scnTriples},
			{Name: "diff-reserved", Doc: "columns named like reserved words", Run: scnKeyed},
		},
	})
}
