package zzdemo

import (
	"context"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"gorm.io/driver/sqlite"
	"gorm.io/gorm"
	"gorm.io/gorm/callbacks"
	glog "gorm.io/gorm/logger"

	ddd "github.com/bytedance/dddfirework"
	mysqlbus "github.com/bytedance/dddfirework/eventbus/mysql"
	"github.com/bytedance/dddfirework/logger/stdr"
)

// the MySQL event bus on an sqlite file

func OpenDB(t *testing.T, models ...interface{}) *gorm.DB {
	path := filepath.Join(t.TempDir(), "demo.db")
	db, err := gorm.Open(sqlite.Open("file:"+path+"?_journal_mode=WAL&_busy_timeout=10000"), &gorm.Config{Logger: glog.Discard, TranslateError: true})
	if err != nil {
		t.Fatal(err)
	}
	if err := db.AutoMigrate(models...); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() {
		if s, err := db.DB(); err == nil {
			s.Close()
		}
	})
	return db
}

func BusDB(t *testing.T) *gorm.DB {
	db := OpenDB(t, &mysqlbus.EventPO{}, &mysqlbus.ServicePO{}, &mysqlbus.Transaction{})
	// sqlite's driver knows times by the plain type name only, and not in a RETURNING clause
	callbacks.RegisterDefaultCallbacks(db, &callbacks.Config{LastInsertIDReversed: true})
	if err := db.Exec("CREATE TABLE ddd_domain_service_event (id integer PRIMARY KEY AUTOINCREMENT, service varchar(30), event_id bigint NOT NULL, retry_count int, status tinyint, failed_message text, event_created_at datetime NOT NULL, next_time datetime NOT NULL, run_at datetime, UNIQUE (service, event_id))").Error; err != nil {
		t.Fatal(err)
	}
	return db
}

var quiet = func(o *mysqlbus.Options) {
	o.Logger = stdr.NewStdr("demo")
	o.RunInterval = 20 * time.Millisecond
}

// Calls records the handled events.
type Calls struct {
	mu  sync.Mutex
	l   []string
	at  []time.Time
	Err func(id string, n int) error
}

func (c *Calls) Handle(ctx context.Context, e *ddd.DomainEvent) error {
	c.mu.Lock()
	c.l = append(c.l, e.ID)
	c.at = append(c.at, time.Now())
	n := 0
	for _, x := range c.l {
		if x == e.ID {
			n++
		}
	}
	f := c.Err
	c.mu.Unlock()
	if f != nil {
		return f(e.ID, n)
	}
	return nil
}

func (c *Calls) List() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string{}, c.l...)
}

func (c *Calls) Times() []time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]time.Time{}, c.at...)
}

// Wait waits until n events were handled, or the time is over.
func (c *Calls) Wait(n int, d time.Duration) []string {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
		if l := c.List(); len(l) >= n {
			return l
		}
	}
	return c.List()
}

func Event(id string, st ddd.SendType, at time.Time) *ddd.DomainEvent {
	return &ddd.DomainEvent{ID: id, Type: "zzdemo", Sender: "s", SendType: st, Payload: []byte("{}"), CreatedAt: at}
}
