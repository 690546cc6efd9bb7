// Package testsuit as the repository's own MySQL tests see it when they run
// over the database model instead of a server (see conform.sh).
package testsuit

import (
	"database/sql"
	"sync"

	"gorm.io/driver/mysql"
	"gorm.io/gorm"
	"gorm.io/gorm/schema"

	"github.com/bytedance/dddfirework/zzmemsql"
)

type MySQLOption struct {
	NoLog bool
}

var (
	once  sync.Once
	model *memsql.DB
	conn  *sql.DB
	mu    sync.Mutex
	have  = map[string]bool{}
)

type dialector struct {
	*mysql.Dialector
}

func (d dialector) Migrator(db *gorm.DB) gorm.Migrator {
	return migrator{d.Dialector.Migrator(db), db, d}
}

type migrator struct {
	gorm.Migrator
	db *gorm.DB
	d  dialector
}

func (m migrator) AutoMigrate(l ...interface{}) error {
	mu.Lock()
	defer mu.Unlock()
	for _, v := range l {
		s, err := schema.Parse(v, &sync.Map{}, m.db.NamingStrategy)
		if err != nil {
			return err
		}
		if !have[s.Table] {
			have[s.Table] = true
			model.AddModel(m.d, v)
		}
	}
	return nil
}

func InitMysql(opts ...MySQLOption) *gorm.DB {
	once.Do(func() {
		model = memsql.New()
		conn = sql.OpenDB(model.Connector(memsql.NewProc("test")))
	})
	d := dialector{mysql.New(mysql.Config{Conn: conn, SkipInitializeWithVersion: true}).(*mysql.Dialector)}
	db, err := gorm.Open(d, &gorm.Config{})
	if err != nil {
		panic(err)
	}
	return db
}

// Unsupported reports a statement the model could not run.
func Unsupported() string { return model.Unsupported() }

func InitMysqlWithDatabase(db *gorm.DB, database string) *gorm.DB { return db }
