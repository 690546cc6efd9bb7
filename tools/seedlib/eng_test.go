package zzdemo

import (
	"context"
	"fmt"
	"sync"

	ddd "github.com/bytedance/dddfirework"
)

// an in-memory executor with transactions, and three levels of entities

type Order struct {
	ddd.BaseEntity
	N     int
	Items []*Item
	Notes []*Note
}
type Item struct {
	ddd.BaseEntity
	N    int
	Subs []*Sub
}
type Sub struct {
	ddd.BaseEntity
	N int
}
type Note struct {
	ddd.BaseEntity
	N int
}

type Row struct {
	Type, ID, Parent string
	N                int
}

func (r *Row) GetID() string { return r.ID }

type OrderRow struct{ Row }
type ItemRow struct{ Row }
type SubRow struct{ Row }
type NoteRow struct{ Row }

type rower interface{ row() *Row }

func (r *Row) row() *Row { return r }

type Mem struct {
	mu   sync.Mutex
	Rows map[string]Row
	Fail func(op string) error
	Log  []string
}
type tx struct {
	rows map[string]Row
	done bool
}
type txKey struct{}

func NewMem() *Mem { return &Mem{Rows: map[string]Row{}} }

func (m *Mem) fail(op string) error {
	m.Log = append(m.Log, op)
	if m.Fail != nil {
		return m.Fail(op)
	}
	return nil
}
func (m *Mem) Begin(ctx context.Context) (context.Context, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.fail("begin"); err != nil {
		return nil, err
	}
	t := &tx{rows: map[string]Row{}}
	for k, v := range m.Rows {
		t.rows[k] = v
	}
	return context.WithValue(ctx, txKey{}, t), nil
}
func (m *Mem) Commit(ctx context.Context) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.fail("commit"); err != nil {
		return err
	}
	t := ctx.Value(txKey{}).(*tx)
	if !t.done {
		m.Rows, t.done = t.rows, true
	}
	return nil
}
func (m *Mem) RollBack(ctx context.Context) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.fail("rollback"); err != nil {
		return err
	}
	ctx.Value(txKey{}).(*tx).done = true
	return nil
}
func pid(p ddd.IEntity) string {
	if p == nil {
		return ""
	}
	return p.GetID()
}
func (m *Mem) Entity2Model(e, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	switch e := e.(type) {
	case *Order:
		return &OrderRow{Row{"order", e.GetID(), "", e.N}}, nil
	case *Item:
		return &ItemRow{Row{"item", e.GetID(), pid(parent), e.N}}, nil
	case *Sub:
		return &SubRow{Row{"sub", e.GetID(), pid(parent), e.N}}, nil
	case *Note:
		return &NoteRow{Row{"note", e.GetID(), pid(parent), e.N}}, nil
	}
	return nil, ddd.ErrEntityNotRegister
}
func (m *Mem) Model2Entity(mo ddd.IModel, e ddd.IEntity) error {
	r := mo.(rower).row()
	e.SetID(r.ID)
	switch e := e.(type) {
	case *Order:
		e.N = r.N
	case *Item:
		e.N = r.N
	case *Sub:
		e.N = r.N
	case *Note:
		e.N = r.N
	}
	return nil
}
func (m *Mem) Exec(ctx context.Context, a *ddd.Action) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	rows := m.Rows
	if t, ok := ctx.Value(txKey{}).(*tx); ok {
		if t.done {
			return fmt.Errorf("transaction has ended")
		}
		rows = t.rows
	}
	if a.Op == ddd.OpQuery {
		q := a.Query.(rower).row()
		switch out := a.QueryResult.(type) {
		case *[]*OrderRow:
			for _, r := range pick(rows, q) {
				*out = append(*out, &OrderRow{r})
			}
		case *[]*ItemRow:
			for _, r := range pick(rows, q) {
				*out = append(*out, &ItemRow{r})
			}
		case *[]*SubRow:
			for _, r := range pick(rows, q) {
				*out = append(*out, &SubRow{r})
			}
		case *[]*NoteRow:
			for _, r := range pick(rows, q) {
				*out = append(*out, &NoteRow{r})
			}
		}
		return nil
	}
	if err := m.fail(fmt.Sprintf("exec %v", a.Op)); err != nil {
		return err
	}
	for _, x := range a.Models {
		r := *x.(rower).row()
		k := r.Type + "/" + r.ID
		switch a.Op {
		case ddd.OpInsert:
			if _, in := rows[k]; in {
				return fmt.Errorf("duplicate key %s", k)
			}
			rows[k] = r
		case ddd.OpUpdate:
			if _, in := rows[k]; in {
				rows[k] = r
			}
		case ddd.OpDelete:
			delete(rows, k)
		}
	}
	return nil
}
func pick(rows map[string]Row, q *Row) (l []Row) {
	for i := 0; i < 100; i++ {
		for _, r := range rows {
			if r.Type == q.Type && (q.ID == "" || r.ID == q.ID) && (q.Parent == "" || r.Parent == q.Parent) && len(r.ID) == i {
				l = append(l, r)
			}
		}
	}
	return
}

// Lock is an in-memory try lock.
type Lock struct {
	mu   sync.Mutex
	Held map[string]bool
	Fail func(op, key string) error
	Log  []string
}

func NewLock() *Lock { return &Lock{Held: map[string]bool{}} }
func (l *Lock) Lock(ctx context.Context, key string) (interface{}, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Log = append(l.Log, "lock "+key)
	if l.Fail != nil {
		if err := l.Fail("lock", key); err != nil {
			return nil, err
		}
	}
	if l.Held[key] {
		return nil, ddd.ErrEntityLocked
	}
	l.Held[key] = true
	return key, nil
}
func (l *Lock) UnLock(ctx context.Context, k interface{}) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Log = append(l.Log, fmt.Sprint("unlock ", k))
	if l.Fail != nil {
		if err := l.Fail("unlock", k.(string)); err != nil {
			return err
		}
	}
	delete(l.Held, k.(string))
	return nil
}

// Bus records what it is given.
type Bus struct {
	Log  []string
	Evts []*ddd.DomainEvent
	Fail func(op string) error
}

func (b *Bus) RegisterEventHandler(cb ddd.DomainEventHandler) {}
func (b *Bus) Dispatch(ctx context.Context, e ...*ddd.DomainEvent) error {
	b.Log = append(b.Log, fmt.Sprintf("dispatch %d", len(e)))
	if b.Fail != nil {
		if err := b.Fail("dispatch"); err != nil {
			return err
		}
	}
	b.Evts = append(b.Evts, e...)
	return nil
}

// TxBus supports transactional events too.
type TxBus struct {
	Bus
	TxEvts []*ddd.DomainEvent
}

func (b *TxBus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) {}
func (b *TxBus) DispatchBegin(ctx context.Context, e ...*ddd.DomainEvent) (context.Context, error) {
	b.Log = append(b.Log, fmt.Sprintf("begin %d", len(e)))
	if b.Fail != nil {
		if err := b.Fail("begin"); err != nil {
			return nil, err
		}
	}
	b.TxEvts = append(b.TxEvts, e...)
	return ctx, nil
}
func (b *TxBus) Commit(ctx context.Context) error {
	b.Log = append(b.Log, "confirm")
	return nil
}
func (b *TxBus) Rollback(ctx context.Context) error {
	b.Log = append(b.Log, "cancel")
	return nil
}

type Evt struct {
	Name string
	Tx   bool
}

func (e *Evt) GetType() ddd.EventType { return "zzdemo" }
func (e *Evt) GetSender() string      { return "s" }
