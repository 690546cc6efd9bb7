From 8d11a1f1f0e8f69a7f492edbf8c20fc1a765dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 01/32] fix: write an event and its service events in one
 transaction on dispatch

The dispatch opened a transaction but wrote through the plain handle, so a
failure or crash midway left events that only some services (or none) receive.
---
 eventbus/mysql/eventbus.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index def97c7..e878510 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -269,12 +269,13 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 	}
 	// return e.getDB(ctx).Create(pos).Error
 	// 在创建event的时候顺带创建service_event，在消费时创建service_event 非常复杂，必须联表查询容易导致慢sql 问题，且容易漏建service_event。
-	return e.db.Transaction(func(tx *gorm.DB) error {
-		if err := e.getDB(ctx).Create(pos).Error; err != nil {
+	// 事件与所有 service_event 必须在同一个事务内写入，否则中途失败或崩溃会导致部分 service 收不到事件
+	return e.getDB(ctx).Transaction(func(db *gorm.DB) error {
+		if err := db.Create(pos).Error; err != nil {
 			return err
 		}
 		// gorm 在创建po后为对象赋值主键自增id
-		serviceNames, err := e.listService()
+		serviceNames, err := e.listService(db)
 		if err != nil {
 			return err
 		}
@@ -290,7 +291,7 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 					NextTime: po.EventCreatedAt,
 				}
 			}
-			if err := e.getDB(ctx).Create(spos).Error; err != nil {
+			if err := db.Create(spos).Error; err != nil {
 				return err
 			}
 		}
@@ -363,9 +364,9 @@ func (e *EventBus) initService() error {
 	return e.db.Where(ServicePO{Name: e.serviceName}).FirstOrCreate(service).Error
 }
 
-func (e *EventBus) listService() ([]string, error) {
+func (e *EventBus) listService(db *gorm.DB) ([]string, error) {
 	services := make([]*ServicePO, 0)
-	if err := e.db.Find(&services).Error; err != nil {
+	if err := db.Find(&services).Error; err != nil {
 		return nil, err
 	}
 	serviceNames := make([]string, 0)
-- 
2.43.0


From 11af1c8700069eb54f30c51b22b55c3dbd1785a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 02/32] fix: decide on the freshly locked service event, not on
 the scanned copy

Between the scan and the row lock another instance may have handled the event
or counted a failed attempt; using the stale copy handled events twice and
overwrote retry state.
---
 eventbus/mysql/eventbus.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index e878510..87fb91d 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -556,9 +556,10 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 			e.logger.Info("find and lock current service_event error", "current event_id", po.ID, "err", err)
 			return err
 		}
-		// 二次确认下service_event 未被处理
-		if spo.Status != ServiceEventStatusInit {
-			e.logger.V(logger.LevelInfo).Info("current service_event'status it not init, ignore", "event_id", spo.EventID)
+		// 二次确认下service_event 未被处理。扫描到加锁之间，其它实例可能已经处理过，必须以锁住的最新记录为准
+		spo = currentServiceEvent
+		if spo.Status != ServiceEventStatusInit || spo.NextTime.After(time.Now()) {
+			e.logger.V(logger.LevelInfo).Info("current service_event'status it not init or not due, ignore", "event_id", spo.EventID)
 			return nil
 		}
 		defer func() {
-- 
2.43.0


From cf0d62ebb44fd007db0618716e9061e5f003a7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 03/32] fix: keep the stored failure message within the column
 and valid utf8

---
 eventbus/mysql/eventbus.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 87fb91d..d755d6a 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"runtime/debug"
+	"strings"
 	"sync"
 	"time"
 	"unicode/utf8"
@@ -437,6 +438,21 @@ func (e *EventBus) getScanEvents(scanStartEventID int64) ([]*EventTuple, error)
 	return events, nil
 }
 
+// truncateMessage 保证错误信息可以存入 failed_message 字段，否则会因为写入失败而丢失本次重试记录。
+// 65535 是该字段的db类型长度（字节），不能从字符中间截断，且不能包含非法的 utf8 字符
+func truncateMessage(msg string) string {
+	const limit = 65535
+	msg = strings.ToValidUTF8(msg, string(utf8.RuneError))
+	if len(msg) <= limit {
+		return msg
+	}
+	end := limit
+	for end > 0 && !utf8.RuneStart(msg[end]) {
+		end--
+	}
+	return msg[:end]
+}
+
 func (e *EventBus) doRetryStrategy(spo *ServiceEventPO) {
 	// 没有定义重试策略，默认不重试直接失败
 	if e.retryStrategy == nil {
@@ -569,10 +585,7 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 				e.doRetryStrategy(spo)
 				spo.FailedMessage = fmt.Sprintf("%v", err)
 			}
-			// 65535 是FailedMessage 字段的db类型长度
-			if len(spo.FailedMessage) > 65535 {
-				spo.FailedMessage = spo.FailedMessage[:65535]
-			}
+			spo.FailedMessage = truncateMessage(spo.FailedMessage)
 			spo.RunAt = time.Now()
 			// 插入或更新 service_event。 此处必须覆盖掉err 的值，目的是保证service_event 一定进到db
 			if err = tx.Save(spo).Error; err != nil {
-- 
2.43.0


From 7a6d5260e8496330453cbd2283a317c81f14d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 04/32] fix: drop the pending transaction record when its
 events were already dispatched

---
 eventbus/mysql/eventbus.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index d755d6a..2af3f37 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -328,9 +328,10 @@ func (e *EventBus) Commit(ctx context.Context) error {
 	}
 
 	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
-	if err != gorm.ErrRecordNotFound {
+	if err != nil && err != gorm.ErrRecordNotFound {
 		return err
 	}
+	// 事件已经发送过（例如上一次提交在删除事务记录前中断），只需要清理事务记录，否则会一直被回查
 	if err == gorm.ErrRecordNotFound {
 		err := e.Dispatch(ctx, tx.Events...)
 		if err != nil {
-- 
2.43.0


From ec5ba3d193b83c3cb9417f7e6e2597f80124e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 05/32] fix: pair scanned service events with their events by
 id

---
 eventbus/mysql/eventbus.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 2af3f37..5704db2 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -428,13 +428,19 @@ func (e *EventBus) getScanEvents(scanStartEventID int64) ([]*EventTuple, error)
 	if err := e.db.Where("id in ?", eventIds).Order("id").Find(&eventPOs).Error; err != nil {
 		return nil, err
 	}
-	// eventPO与serviceEventPO 都按event id排序才能进行下一步
+	// 两次查询之间 event 可能已被其它实例处理并清理，必须以 event id 来匹配，不能依赖下标
+	eventByID := make(map[int64]*EventPO, len(eventPOs))
+	for _, eventPO := range eventPOs {
+		eventByID[eventPO.ID] = eventPO
+	}
 	events := make([]*EventTuple, 0)
-	for index, eventPO := range eventPOs {
-		events = append(events, &EventTuple{
-			ServiceEvent: serviceEventPOs[index],
-			Event:        eventPO,
-		})
+	for _, serviceEvent := range serviceEventPOs {
+		if eventPO, in := eventByID[serviceEvent.EventID]; in {
+			events = append(events, &EventTuple{
+				ServiceEvent: serviceEvent,
+				Event:        eventPO,
+			})
+		}
 	}
 	return events, nil
 }
-- 
2.43.0


From 22efb8a5d04097c750d32fa1edb502d7d790f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 06/32] fix: do not take over a database lock that was renewed
 after it was read

---
 lock/db/sql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 9657786..d6f29a9 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -115,9 +115,10 @@ func (r *DBLock) lock(ctx context.Context, key string) (keyLock interface{}, err
 		// key is locked
 		return nil, dddfirework.ErrEntityLocked
 	}
-	// 有记录但是数据过期
+	// 有记录但是数据过期。查询之后持有者可能已经续期成功，此时 locker_id 不变，必须同时比较 updated_at
 	res := r.db.WithContext(ctx).Model(&ResourceLock{}).Where("resource = ?", key).
 		Where("locker_id = ?", lock.LockerID).
+		Where("updated_at = ?", lock.UpdatedAt).
 		UpdateColumns(ResourceLock{UpdatedAt: time.Now(), LockerID: lockerID})
 
 	if res.Error != nil {
-- 
2.43.0


From ad6e2f6c4d3e0effd4002d48f6e478787d5a8ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 07/32] fix: end lock renewal with the job and release the lock
 even if the context was cancelled

---
 lock/db/sql.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index d6f29a9..e8e9401 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -165,7 +165,8 @@ func (r *DBLock) Run(ctx context.Context, key string, fn func(ctx context.Contex
 		return err
 	}
 	defer func() {
-		if err = r.UnLock(ctx, locker); err != nil {
+		// ctx 可能已被取消，但锁仍然需要释放
+		if err := r.UnLock(detachedContext{ctx}, locker); err != nil {
 			r.logger.Error(err, fmt.Sprintf("failed to unlock %s", key))
 		}
 	}() // pass parent ctx in here, or defer will use sub ctx below
@@ -174,13 +175,19 @@ func (r *DBLock) Run(ctx context.Context, key string, fn func(ctx context.Contex
 	// 业务函数执行完成后，会停止renew 协程
 	defer ticker.Stop()
 	subCtx, cancel := context.WithCancel(ctx)
+	defer cancel()
 	go func() {
-		for range ticker.C {
-			if err = r.update(ctx, locker); err != nil {
+		for {
+			select {
+			case <-subCtx.Done():
+				return
+			case <-ticker.C:
+			}
+			if err := r.update(ctx, locker); err != nil {
 				// 续期失败，会通知业务函数停止执行
 				cancel()
 				r.logger.Info(fmt.Sprintf("failed to renew lock %s, error: %v", key, err))
-				break
+				return
 			}
 		}
 	}()
@@ -188,3 +195,12 @@ func (r *DBLock) Run(ctx context.Context, key string, fn func(ctx context.Contex
 	fn(subCtx)
 	return nil
 }
+
+// detachedContext 保留 ctx 中的值，但不受其取消和超时的影响
+type detachedContext struct {
+	context.Context
+}
+
+func (detachedContext) Deadline() (deadline time.Time, ok bool) { return time.Time{}, false }
+func (detachedContext) Done() <-chan struct{}                   { return nil }
+func (detachedContext) Err() error                              { return nil }
-- 
2.43.0


From b6367daaedfb03d246059f975bedbd3c74f9b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 08/32] fix: recognise a wrapped not-registered error when
 taking a snapshot

---
 engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index ed20575..2907826 100644
--- a/engine.go
+++ b/engine.go
@@ -856,7 +856,7 @@ func (e *Stage) updateSnapshot() error {
 		}
 
 		po, err := e.executor.Entity2Model(entity, parent, OpQuery)
-		if err != nil && !errors.Is(ErrEntityNotRegister, err) {
+		if err != nil && !errors.Is(err, ErrEntityNotRegister) {
 			return err
 		}
 		e.snapshot[entity] = &entitySnapshot{
-- 
2.43.0


From 9751e9e3a6a33bf3e9f4831b1e2246a4bebddf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 09/32] fix: report the errors of adding and removing roots in
 Act

---
 engine.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/engine.go b/engine.go
index 2907826..7ec0ae3 100644
--- a/engine.go
+++ b/engine.go
@@ -164,20 +164,27 @@ func (h DomainBuilder) Build(ctx context.Context, parent IEntity, children ...in
 // RootContainer 聚合根实体容器
 type RootContainer struct {
 	stage *Stage
-	errs  []error
+	errs  *[]error // 容器以值传递，错误需要通过指针共享
+}
+
+func (h *RootContainer) appendError(err error) {
+	if h.errs == nil {
+		h.errs = &[]error{}
+	}
+	*h.errs = append(*h.errs, err)
 }
 
 // Add 创建聚合根实体
 func (h *RootContainer) Add(root IEntity) {
 	if err := h.stage.meta.Add(root); err != nil {
-		h.errs = append(h.errs, err)
+		h.appendError(err)
 	}
 }
 
 // Remove 删除聚合根实体
 func (h *RootContainer) Remove(root IEntity) {
 	if err := h.stage.meta.Remove(root); err != nil {
-		h.errs = append(h.errs, err)
+		h.appendError(err)
 	}
 }
 
@@ -792,11 +799,11 @@ func (e *Stage) runCommand(ctx context.Context, c ICommand) *Result {
 			return err
 		}
 
-		container := RootContainer{stage: repo.stage}
+		container := RootContainer{stage: repo.stage, errs: &[]error{}}
 		if err := c.Act(ctx, container, buildRoots...); err != nil {
 			return err
-		} else if len(container.errs) > 0 {
-			return ErrList(container.errs)
+		} else if len(*container.errs) > 0 {
+			return ErrList(*container.errs)
 		}
 		return nil
 	}).Save(ctx)
-- 
2.43.0


From 03a69c18873029e4115c582787b732a0e559c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 10/32] fix: loading or removing a root no longer takes unsaved
 additions and removals for stored

---
 engine.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/engine.go b/engine.go
index 7ec0ae3..36927e6 100644
--- a/engine.go
+++ b/engine.go
@@ -56,6 +56,9 @@ func (d *defaultIDGenerator) NewID() (string, error) {
 	return guid.String(), nil
 }
 
+// metaChildrenKey EntityContainer 下聚合根列表的 key
+const metaChildrenKey = "meta"
+
 // EntityContainer 负责维护领域内所有聚合根实体的实体
 type EntityContainer struct {
 	BaseEntity
@@ -65,7 +68,7 @@ type EntityContainer struct {
 }
 
 func (w *EntityContainer) GetChildren() map[string][]IEntity {
-	return map[string][]IEntity{"meta": w.roots}
+	return map[string][]IEntity{metaChildrenKey: w.roots}
 }
 
 func (w *EntityContainer) Has(root IEntity) bool {
@@ -217,7 +220,7 @@ func (r *Repository) Get(ctx context.Context, root IEntity, children ...interfac
 	if err := r.stage.meta.Add(root); err != nil {
 		return err
 	}
-	return r.stage.updateSnapshot()
+	return r.stage.snapshotRoots(root)
 }
 
 // CustomGet 自定义函数获取聚合根实体，并添加到快照
@@ -233,7 +236,7 @@ func (r *Repository) CustomGet(ctx context.Context, getter func(ctx context.Cont
 		}
 	}
 
-	return r.stage.updateSnapshot()
+	return r.stage.snapshotRoots(roots...)
 }
 
 // Add 添加聚合根到仓库
@@ -260,7 +263,7 @@ func (r *Repository) Remove(roots ...IEntity) {
 	}
 	if len(toCreate) > 0 {
 		r.Add(toCreate...)
-		if err := r.stage.updateSnapshot(); err != nil {
+		if err := r.stage.snapshotRoots(toCreate...); err != nil {
 			r.appendError(err)
 			return
 		}
@@ -852,13 +855,29 @@ func childrenSnapshot(children map[string][]IEntity) map[string][]IEntity {
 
 func (e *Stage) flush() error {
 	e.snapshot = entitySnapshotPool{}
-	return e.updateSnapshot()
+	return e.updateSnapshot(e.meta, nil)
+}
+
+// 为新加载的聚合根生成快照，不影响其他聚合根（例如尚未保存的新增、删除）
+func (e *Stage) snapshotRoots(roots ...IEntity) error {
+	metaSnapshot := e.snapshot[e.meta]
+	if metaSnapshot == nil {
+		metaSnapshot = &entitySnapshot{children: map[string][]IEntity{}}
+		e.snapshot[e.meta] = metaSnapshot
+	}
+	for _, root := range roots {
+		if err := e.updateSnapshot(root, e.meta); err != nil {
+			return err
+		}
+		metaSnapshot.children[metaChildrenKey] = append(metaSnapshot.children[metaChildrenKey], root)
+	}
+	return nil
 }
 
 // 更新快照，已有的不覆盖
-func (e *Stage) updateSnapshot() error {
-	return walk(e.meta, nil, func(entity, parent IEntity, children map[string][]IEntity) error {
-		if _, in := e.snapshot[entity]; in && entity != e.meta {
+func (e *Stage) updateSnapshot(root, rootParent IEntity) error {
+	return walk(root, rootParent, func(entity, parent IEntity, children map[string][]IEntity) error {
+		if _, in := e.snapshot[entity]; in {
 			return nil
 		}
 
-- 
2.43.0


From b4a26920140cefd1effab0274650b8887d316a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 11/32] fix: moving several children at once or out of a
 removed parent, and recursive delete of the stored subtree

---
 engine.go   |   4 +-
 snapshot.go | 108 +++++++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 88 insertions(+), 24 deletions(-)

diff --git a/engine.go b/engine.go
index 36927e6..974a5ea 100644
--- a/engine.go
+++ b/engine.go
@@ -908,13 +908,13 @@ func (e *Stage) unDirty() {
 func (e *Stage) getEntityChanged() ([]*entityChanged, error) {
 	changed := entityDiff(e.meta, e.snapshot)
 	// 处理实体移动的场景
-	changed, err := handleEntityMove(changed)
+	changed, err := handleEntityMove(changed, e.snapshot)
 	if err != nil {
 		return nil, err
 	}
 	// 处理递归删除子实体
 	if e.options.RecursiveDelete {
-		changed = recursiveDelete(changed)
+		changed = recursiveDelete(changed, e.snapshot)
 	}
 	return changed, nil
 }
diff --git a/snapshot.go b/snapshot.go
index b32d016..4dcd56c 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -267,25 +267,61 @@ func entityDiff(parent IEntity, pool entitySnapshotPool) []*entityChanged {
 	return res
 }
 
-func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
+func handleEntityMove(changedItems []*entityChanged, pool entitySnapshotPool) ([]*entityChanged, error) {
 	// 按照 new, dirty, delete 的顺序排序
 	sort.SliceStable(changedItems, func(i, j int) bool {
 		return changedItems[i].changeType < changedItems[j].changeType
 	})
 
+	// 随被删除的实体一起脱离的、已持久化的后代
+	created := map[IEntity]bool{}
+	for _, item := range changedItems {
+		if item.changeType == newChildren {
+			for _, entity := range item.children {
+				created[entity] = true
+			}
+		}
+	}
+	orphans := map[IEntity]bool{}
+	for _, item := range changedItems {
+		if item.changeType == deleteChildren {
+			for _, entity := range item.children {
+				if created[entity] {
+					continue
+				}
+				walkSnapshot(entity, pool, func(entity, parent IEntity, key string) bool {
+					orphans[entity] = true
+					return !created[entity] // 移动到别处的实体，后代跟随它一起移动
+				})
+			}
+		}
+	}
+
 	entities := map[IEntity]*entityChanged{}
+	moved := make([]*entityChanged, 0)
 	for _, item := range changedItems {
-		for _, entity := range item.children {
+		// 循环中会修改 item.children，需要遍历它的拷贝
+		for _, entity := range append([]IEntity{}, item.children...) {
 			prev, ok := entities[entity]
 			if !ok {
 				entities[entity] = item
+				if item.changeType == newChildren && orphans[entity] {
+					// 从被删除的父实体移动过来，同样判定为更新操作
+					item.Remove(entity)
+					moved = append(moved, &entityChanged{
+						changeType: dirtyChildren,
+						parent:     item.parent,
+						key:        item.key,
+						children:   []IEntity{entity},
+					})
+				}
 				continue
 			}
 			// 同个实体从某个父实体删除，在另一个父实体新增，判定为更新操作
 			if prev.changeType == newChildren && item.changeType == deleteChildren {
 				item.Remove(entity)
 				prev.Remove(entity)
-				changedItems = append(changedItems, &entityChanged{
+				moved = append(moved, &entityChanged{
 					changeType: dirtyChildren,
 					parent:     prev.parent,
 					key:        prev.key,
@@ -299,29 +335,57 @@ func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 			}
 		}
 	}
-	return changedItems, nil
+	return append(changedItems, moved...), nil
 }
 
-func recursiveDelete(changed []*entityChanged) []*entityChanged {
-	for _, item := range changed {
-		if item.changeType == deleteChildren {
-			for _, c := range item.children {
-				if err := walk(c, item.parent, func(entity, parent IEntity, children map[string][]IEntity) error {
-					for key, entities := range children {
-						changed = append(changed, &entityChanged{
-							changeType: deleteChildren,
-							parent:     entity,
-							key:        key,
-							children:   entities,
-						})
-					}
-					return nil
-				}); err != nil {
-					return nil
-				}
+// walkSnapshot 按照快照记录的父子关系，遍历实体的所有后代（不含自身），f 返回 false 则不再遍历该后代的后代
+func walkSnapshot(entity IEntity, pool entitySnapshotPool, f func(entity, parent IEntity, key string) bool) {
+	if pool[entity] == nil {
+		return
+	}
+	children := pool[entity].children
+	keys := make([]string, 0, len(children))
+	for key := range children {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	for _, key := range keys {
+		for _, c := range children[key] {
+			if f(c, entity, key) {
+				walkSnapshot(c, pool, f)
 			}
 		}
 	}
+}
 
-	return changed
+// recursiveDelete 递归删除被删除实体下所有已持久化的后代，已经移动到其他父实体下的除外
+func recursiveDelete(changed []*entityChanged, pool entitySnapshotPool) []*entityChanged {
+	handled := map[IEntity]bool{}
+	for _, item := range changed {
+		for _, entity := range item.children {
+			handled[entity] = true
+		}
+	}
+	res := changed
+	for _, item := range changed {
+		if item.changeType != deleteChildren {
+			continue
+		}
+		for _, c := range item.children {
+			walkSnapshot(c, pool, func(entity, parent IEntity, key string) bool {
+				if handled[entity] {
+					return false
+				}
+				handled[entity] = true
+				res = append(res, &entityChanged{
+					changeType: deleteChildren,
+					parent:     parent,
+					key:        key,
+					children:   []IEntity{entity},
+				})
+				return true
+			})
+		}
+	}
+	return res
 }
-- 
2.43.0


From adddde677b47833fb73be459bf6f04ea9e5ac17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 12/32] fix: let errors.Is see the errors of a result's error
 list

---
 engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine.go b/engine.go
index 974a5ea..0cdcdd6 100644
--- a/engine.go
+++ b/engine.go
@@ -132,6 +132,11 @@ func (e ErrList) Error() string {
 	return strings.Join(errs, ", ")
 }
 
+// Unwrap 支持 errors.Is 和 errors.As
+func (e ErrList) Unwrap() []error {
+	return e
+}
+
 type Result struct {
 	Error   error
 	Break   bool
-- 
2.43.0


From f172defe1db5fe0b0b1e9afa584a9f780e26837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 13/32] fix: send the events of children that were detached
 before their parent was removed

---
 engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine.go b/engine.go
index 0cdcdd6..8e63ebe 100644
--- a/engine.go
+++ b/engine.go
@@ -929,6 +929,11 @@ func (e *Stage) recycle(changed []*entityChanged) {
 		if c.changeType == deleteChildren {
 			for _, entity := range c.children {
 				e.meta.Recycle(entity)
+				// 随父实体一起被删除的后代，可能已经不在父实体下
+				walkSnapshot(entity, e.snapshot, func(child, parent IEntity, key string) bool {
+					e.meta.Recycle(child)
+					return true
+				})
 			}
 		}
 	}
-- 
2.43.0


From 9bf77f0ace1542be1b5beb5ba2a129ebd5c9f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 14/32] fix: do not sort the caller's slice of lock keys

---
 engine.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engine.go b/engine.go
index 8e63ebe..4099e46 100644
--- a/engine.go
+++ b/engine.go
@@ -1243,6 +1243,8 @@ type doSave func(ctx context.Context) *Result
 
 func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 	return func(ctx context.Context) *Result {
+		// 拷贝一份再排序，调用方的 slice 可能被多个命令共用
+		lockKeys := append([]string{}, lockKeys...)
 		sort.Strings(lockKeys)
 		for i := 1; i < len(lockKeys); i++ {
 			if lockKeys[i] == lockKeys[i-1] {
-- 
2.43.0


From b9210683b1243c39ba649971a235bc947c2b04d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 15/32] fix: post-save hooks of concurrent or nested runs
 overwrote each other

---
 engine.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 4099e46..d827d3f 100644
--- a/engine.go
+++ b/engine.go
@@ -483,6 +483,9 @@ func NewEngine(l ILock, e IExecutor, opts ...Option) *Engine {
 }
 
 func (e *Engine) NewStage() *Stage {
+	options := e.options
+	// 限制容量，避免多次运行追加的 hook 写到同一个底层数组
+	options.PostSaveHooks = options.PostSaveHooks[:len(options.PostSaveHooks):len(options.PostSaveHooks)]
 	return &Stage{
 		locker:      e.locker,
 		executor:    e.executor,
@@ -492,7 +495,7 @@ func (e *Engine) NewStage() *Stage {
 		meta:        &EntityContainer{},
 		snapshot:    map[IEntity]*entitySnapshot{},
 		result:      &Result{},
-		options:     e.options,
+		options:     options,
 		logger:      e.logger,
 	}
 }
-- 
2.43.0


From 0ce08743a12f957f0beb3a12223563421a94857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 16/32] fix: update no longer rewrites unchanged columns of
 values with unexported slices

---
 executor/mysql/diff.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/executor/mysql/diff.go b/executor/mysql/diff.go
index e93aecc..7d37861 100644
--- a/executor/mysql/diff.go
+++ b/executor/mysql/diff.go
@@ -67,6 +67,12 @@ func diffValue(a, b reflect.Value) (fields []string, diff bool) {
 		diff = !a.Equal(b)
 	case a.CanInterface() && b.CanInterface():
 		diff = !reflect.DeepEqual(a.Interface(), b.Interface())
+	case a.Kind() == reflect.Slice || a.Kind() == reflect.Array:
+		// 未导出的字段不能用 DeepEqual，逐个元素比较
+		diff = a.Len() != b.Len()
+		for i := 0; i < a.Len() && !diff; i++ {
+			_, diff = diffValue(a.Index(i), b.Index(i))
+		}
 	default:
 		diff = true
 	}
-- 
2.43.0


From ea5e44a7502677c2c4856aec822d87541089315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 17/32] fix: updates of embedded structs with equal field names
 or nil pointers wrote the wrong columns

---
 executor/mysql/diff.go     | 39 +++++++++++++++++++++++++++++++++-----
 executor/mysql/executor.go | 10 +++++++---
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/executor/mysql/diff.go b/executor/mysql/diff.go
index 7d37861..51b88da 100644
--- a/executor/mysql/diff.go
+++ b/executor/mysql/diff.go
@@ -19,6 +19,8 @@ import (
 	"reflect"
 	"strings"
 	"sync"
+
+	"gorm.io/gorm/schema"
 )
 
 var schemaCache = &sync.Map{}
@@ -90,8 +92,10 @@ func diffStruct(currVal, prevVal reflect.Value) []string {
 		fieldTag := field.Tag.Get("gorm")
 		if reflect.Indirect(fieldVal).Kind() == reflect.Struct {
 			if structDiff, diff := diffValue(fieldVal, prevFiledVal); diff {
-				if field.Anonymous || hasValue(fieldTag, "embedded") {
-					result = append(result, structDiff...)
+				if len(structDiff) > 0 && (field.Anonymous || hasValue(fieldTag, "embedded")) {
+					for _, name := range structDiff {
+						result = append(result, fieldName+"."+name)
+					}
 				} else {
 					result = append(result, fieldName)
 				}
@@ -105,12 +109,37 @@ func diffStruct(currVal, prevVal reflect.Value) []string {
 	return result
 }
 
-// DiffModel 模型差异对比，返回gorm命名规范的更新数据
-// 支持以下类型比对：常规数据类型(bool, int, float, string, time.Time)，嵌套可导出的非指针的 struct
-func DiffModel(curr, prev interface{}) []string {
+// diffPaths 返回有差异的字段路径，内嵌结构的字段形如 Outer.Inner
+func diffPaths(curr, prev interface{}) []string {
 	currVal, prevVal := reflect.Indirect(reflect.ValueOf(curr)), reflect.Indirect(reflect.ValueOf(prev))
 	if currVal.Kind() != reflect.Struct || prevVal.Kind() != reflect.Struct {
 		return nil
 	}
 	return diffStruct(currVal, prevVal)
 }
+
+// DiffModel 模型差异对比，返回gorm命名规范的更新数据
+// 支持以下类型比对：常规数据类型(bool, int, float, string, time.Time)，嵌套可导出的非指针的 struct
+func DiffModel(curr, prev interface{}) []string {
+	fields := diffPaths(curr, prev)
+	for i, path := range fields {
+		fields[i] = path[strings.LastIndex(path, ".")+1:]
+	}
+	return fields
+}
+
+// diffColumns 返回有差异的列，不同内嵌结构可能有同名字段，因此用列名区分
+func diffColumns(s *schema.Schema, curr, prev interface{}) []string {
+	columns := make([]string, 0)
+	paths := diffPaths(curr, prev)
+	for _, name := range s.DBNames {
+		bind := strings.Join(s.FieldsByDBName[name].BindNames, ".") + "."
+		for _, path := range paths {
+			if strings.HasPrefix(bind, path+".") || strings.HasPrefix(path+".", bind) {
+				columns = append(columns, name)
+				break
+			}
+		}
+	}
+	return columns
+}
diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index 8c8a3e2..bf5ffdc 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -87,11 +87,15 @@ var opMap = map[ddd.OpType]execFunc{
 	ddd.OpUpdate: func(db *gorm.DB, a *ddd.Action) error {
 		for i, m := range a.Models {
 			if len(a.PrevModels) > i {
-				fields := DiffModel(m, a.PrevModels[i])
-				if len(fields) == 0 {
+				s, err := schema.Parse(m, schemaCache, db.NamingStrategy)
+				if err != nil {
+					return err
+				}
+				columns := diffColumns(s, m, a.PrevModels[i])
+				if len(columns) == 0 {
 					continue
 				}
-				if err := db.Select(fields).Updates(m).Error; err != nil {
+				if err := db.Select(columns).Updates(m).Error; err != nil {
 					return err
 				}
 			} else {
-- 
2.43.0


From bffd20e5359bb1c22979e50899e0f4f09e5fd60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 18/32] fix: update by composite key ignored key parts that are
 zero

---
 executor/mysql/executor.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index bf5ffdc..c430990 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -23,6 +23,7 @@ import (
 
 	ddd "github.com/bytedance/dddfirework"
 	"gorm.io/gorm"
+	"gorm.io/gorm/clause"
 	"gorm.io/gorm/schema"
 )
 
@@ -95,7 +96,14 @@ var opMap = map[ddd.OpType]execFunc{
 				if len(columns) == 0 {
 					continue
 				}
-				if err := db.Select(columns).Updates(m).Error; err != nil {
+				tx := db.Select(columns)
+				for _, f := range s.PrimaryFields {
+					// gorm 会忽略零值的主键，复合主键需要显式指定，否则会更新到其他行
+					if v, zero := f.ValueOf(db.Statement.Context, reflect.ValueOf(m)); zero && len(s.PrimaryFields) > 1 {
+						tx = tx.Where(clause.Eq{Column: clause.Column{Table: clause.CurrentTable, Name: f.DBName}, Value: v})
+					}
+				}
+				if err := tx.Updates(m).Error; err != nil {
 					return err
 				}
 			} else {
-- 
2.43.0


From 6e88fa8bea47748b6ebe2b7e6227178afbd6ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 19/32] fix: reject nil child arguments and lists of
 non-pointer elements instead of panicking

---
 engine.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/engine.go b/engine.go
index d827d3f..9921693 100644
--- a/engine.go
+++ b/engine.go
@@ -668,8 +668,8 @@ func (e *Stage) BuildEntity(ctx context.Context, parent IEntity, children ...int
 	for _, item := range children {
 		itemType := reflect.TypeOf(item)
 		itemVal := reflect.ValueOf(item)
-		if itemType.Kind() != reflect.Ptr {
-			return fmt.Errorf("children must be pointer")
+		if itemType == nil || itemType.Kind() != reflect.Ptr || itemVal.IsNil() {
+			return fmt.Errorf("children must be non-nil pointer")
 		}
 		if itemType.Elem().Kind() == reflect.Slice {
 			if err := e.buildEntitySliceByParent(ctx, parent, item); err != nil {
@@ -731,13 +731,11 @@ func (e *Stage) buildEntitySliceByParent(ctx context.Context, parent IEntity, ch
 		return fmt.Errorf("children must be pointer of slice")
 	}
 	eType := childrenType.Elem().Elem()
-	if !eType.Implements(entityType) {
-		return fmt.Errorf("element of children must implement IEntity")
+	if eType.Kind() != reflect.Ptr || !eType.Implements(entityType) {
+		return fmt.Errorf("element of children must be pointer and implement IEntity")
 	}
 
-	if eType.Kind() == reflect.Ptr {
-		eType = eType.Elem()
-	}
+	eType = eType.Elem()
 	entity := reflect.New(eType)
 	po, err := e.executor.Entity2Model(entity.Interface().(IEntity), parent, OpQuery)
 	if err != nil {
-- 
2.43.0


From 357d654464fc94c7c756c28c1bd011e70e5f0a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 20/32] fix: convert the answer of transaction checkers that
 return another integer type

---
 event.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event.go b/event.go
index 6624c12..7da65b2 100644
--- a/event.go
+++ b/event.go
@@ -211,7 +211,7 @@ func onTXChecker(evt *DomainEvent) TXStatus {
 	}
 
 	outs := checker.f.Call([]reflect.Value{bizEvt})
-	return outs[0].Interface().(TXStatus)
+	return outs[0].Convert(txStatusType).Interface().(TXStatus)
 }
 
 type IEvent interface {
-- 
2.43.0


From 576d62b281e179b1dbb7083ca7bd215c0f3b6321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:14 +0000
Subject: [PATCH 21/32] fix: registering a timer that another instance
 registers at the same time no longer fails

---
 d_timer/sql/timer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 8d39b7b..2d5a52f 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -97,10 +97,16 @@ func (t *DBTimer) run(job *TimerJob) error {
 	if err := job.Reset(); err != nil {
 		return err
 	}
-	return t.db.Where(TimerJob{
+	cond := TimerJob{
 		Service: t.service,
 		Key:     job.Key,
-	}).Attrs(job).FirstOrCreate(&TimerJob{}).Error
+	}
+	err := t.db.Where(cond).Attrs(job).FirstOrCreate(&TimerJob{}).Error
+	if err != nil && t.db.Where(cond).First(&TimerJob{}).Error == nil {
+		// 其他实例同时注册了相同的 key
+		return nil
+	}
+	return err
 }
 
 func (t *DBTimer) RegisterTimerHandler(cb ddd.TimerHandler) {
-- 
2.43.0


From 126b358700eb7a71d154c1ea7de68473895bad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:07 +0000
Subject: [PATCH 22/32] fix: the in-memory bus ends its goroutine when its
 context is cancelled

---
 eventbus/mem/eventbus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eventbus/mem/eventbus.go b/eventbus/mem/eventbus.go
index 5e75442..8075756 100644
--- a/eventbus/mem/eventbus.go
+++ b/eventbus/mem/eventbus.go
@@ -53,7 +53,7 @@ func (e *MemoryEventBus) Start(ctx context.Context) {
 			case evt := <-e.ch:
 				_ = e.cb(ctx, evt)
 			case <-ctx.Done():
-				break
+				return
 			}
 		}
 	}
-- 
2.43.0


From 43fbb911c5ba8afb8ab27442dea1d40819fed321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 23/32] fix: the redis lock reports a key that stayed locked
 for the whole lease as locked

---
 lock/redis/redis.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lock/redis/redis.go b/lock/redis/redis.go
index 90a6e92..b540457 100644
--- a/lock/redis/redis.go
+++ b/lock/redis/redis.go
@@ -38,7 +38,8 @@ func (r *RedisLock) Lock(ctx context.Context, key string) (keyLock interface{},
 	if keyLock, err = r.cli.Obtain(ctx, key, r.ttl, &redislock.Options{
 		// 默认固定间隔重试，最大重试30次
 		RetryStrategy: redislock.LimitRetry(redislock.LinearBackoff(100*time.Millisecond), 30)},
-	); err == redislock.ErrNotObtained {
+	); err == redislock.ErrNotObtained || (err == context.DeadlineExceeded && ctx.Err() == nil) {
+		// 调用方未设置超时时间时，redislock 最多等待 ttl
 		return nil, dddfirework.ErrEntityLocked
 	}
 	return
-- 
2.43.0


From 431f904e4297104d0463555d91e57d89b147793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:21 +0000
Subject: [PATCH 24/32] fix: release command locks even if the caller's context
 was cancelled

---
 engine.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 9921693..e4aeab1 100644
--- a/engine.go
+++ b/engine.go
@@ -23,6 +23,7 @@ import (
 	"reflect"
 	"sort"
 	"strings"
+	"time"
 
 	"github.com/go-logr/logr"
 	"github.com/rs/xid"
@@ -1240,6 +1241,15 @@ func (e *Stage) do(ctx context.Context) *Result {
 	return e.result
 }
 
+// detachedContext 保留 ctx 中的值，但不受其取消和超时的影响
+type detachedContext struct {
+	context.Context
+}
+
+func (detachedContext) Deadline() (deadline time.Time, ok bool) { return time.Time{}, false }
+func (detachedContext) Done() <-chan struct{}                   { return nil }
+func (detachedContext) Err() error                              { return nil }
+
 type doSave func(ctx context.Context) *Result
 
 func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
@@ -1267,7 +1277,8 @@ func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 		}
 		defer func() {
 			for _, l := range ls {
-				if err := e.locker.UnLock(ctx, l); err != nil {
+				// ctx 可能已被取消，但锁仍然需要释放
+				if err := e.locker.UnLock(detachedContext{ctx}, l); err != nil {
 					e.logger.Error(err, "unlock failed")
 				}
 			}
-- 
2.43.0


From cdc777bb04ba1fa6958f4258332adaff517502e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:37 +0000
Subject: [PATCH 25/32] fix: order events of equal time by their number, not by
 their random ID

checkPrecedingEvent breaks ties of event_created_at by event_id, which is
a generated string: xid counters wrap, and IDs may be given by the caller.
With IDs that do not sort in dispatch order the wrong event was taken for
the predecessor, and an ordered event could overtake the one before it.
---
 eventbus/mysql/eventbus.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 5704db2..db5432a 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -518,10 +518,10 @@ func (e *EventBus) checkPrecedingEvent(tx *gorm.DB, eventPO *EventPO, spo *Servi
 	// 找到前序event
 	precedingEvent := &EventPO{}
 	if err := tx.Where("sender = ?", eventPO.Sender).
-		// event_created_at 是最权威的前序，但是时间精度问题导致可能前序event.event_created_at可能跟当前event一样，再用event_id 明确下
+		// event_created_at 是最权威的前序，但是时间精度问题导致可能前序event.event_created_at可能跟当前event一样，再用自增 id 明确下（event_id 是随机生成的字符串，不保证递增）
 		Where("event_created_at <= ?", eventPO.EventCreatedAt).
 		Where("id < ?", eventPO.ID).
-		Order("event_created_at desc, event_id desc").Take(precedingEvent).Error; err != nil {
+		Order("event_created_at desc, id desc").Take(precedingEvent).Error; err != nil {
 		if !errors.Is(err, gorm.ErrRecordNotFound) {
 			e.logger.V(logger.LevelInfo).Info("find preceding event error", "current event_id", spo.EventID, "err", err)
 			return err
-- 
2.43.0


From 728c51d131cb0c7c7bb88f43f073f914569b7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:44 +0000
Subject: [PATCH 26/32] fix: give every MySQL executor a transaction key of its
 own

The key under which the transaction is kept in the context was made from
the current second, so executors created within one second shared it: a
command without transaction, run inside a command of another engine, read
and wrote in the outer engine's transaction (on the wrong database, and
rolled back with it although it had reported success).
---
 executor/mysql/executor.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index c430990..a7954a3 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -19,7 +19,6 @@ import (
 	"context"
 	"fmt"
 	"reflect"
-	"time"
 
 	ddd "github.com/bytedance/dddfirework"
 	"gorm.io/gorm"
@@ -158,10 +157,10 @@ type Executor struct {
 }
 
 func NewExecutor(db *gorm.DB) *Executor {
-	return &Executor{
-		db:    db,
-		txKey: contextKey(fmt.Sprintf("executor_tx_%d", time.Now().Unix())),
-	}
+	e := &Executor{db: db}
+	// 每个 executor 的 key 必须唯一，否则嵌套运行时会误用其他 executor 的事务
+	e.txKey = contextKey(fmt.Sprintf("executor_tx_%p", e))
+	return e
 }
 
 func (e *Executor) Begin(ctx context.Context) (context.Context, error) {
-- 
2.43.0


From c8bf18cf339ae3492afa71ecbe3b0ca32a2eeee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:18 +0000
Subject: [PATCH 27/32] fix: mysql eventbus refuses ordered events without a
 sender instead of storing them and never handling them

---
 eventbus/mysql/eventbus.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index db5432a..4a4323d 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -53,6 +53,7 @@ var ErrInvalidDB = fmt.Errorf("invalid db")
 var ErrNoTransaction = fmt.Errorf("no transaction")
 var ErrServiceNotCreate = fmt.Errorf("service not create")
 var ErrPrecedingEventNotReady = fmt.Errorf("preceding event not ready")
+var ErrSenderRequired = fmt.Errorf("event sender can not be empty when event type is fifo")
 
 var defaultLogger = stdr.NewStdr("mysql_eventbus")
 var eventBusMu sync.Mutex
@@ -253,8 +254,21 @@ func (e *EventBus) getTX(ctx context.Context) *Transaction {
 	return nil
 }
 
+// checkSender 保序event 要求sender 不能为空，否则该event 永远不会被执行，因此在发送时就拒绝
+func checkSender(events []*dddfirework.DomainEvent) error {
+	for _, evt := range events {
+		if len(evt.Sender) == 0 && (evt.SendType == dddfirework.SendTypeFIFO || evt.SendType == dddfirework.SendTypeLaxFIFO) {
+			return ErrSenderRequired
+		}
+	}
+	return nil
+}
+
 // Dispatch ...
 func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEvent) error {
+	if err := checkSender(events); err != nil {
+		return err
+	}
 	tx := e.getTX(ctx)
 	pos := make([]*EventPO, len(events))
 
@@ -309,6 +323,9 @@ func (e *EventBus) DispatchBegin(ctx context.Context, evts ...*dddfirework.Domai
 	if len(evts) == 0 {
 		return ctx, fmt.Errorf("events can not be empty")
 	}
+	if err := checkSender(evts); err != nil {
+		return ctx, err
+	}
 	tx := &Transaction{
 		Service: e.serviceName,
 		Events:  evts,
-- 
2.43.0


From ca23d1d108b630281636688a1483b04aaddbe03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:59 +0000
Subject: [PATCH 28/32] fix: committing a transactional event locks its record,
 so a concurrent status check cannot deliver it a second time

---
 eventbus/mysql/eventbus.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 4a4323d..b5438b7 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -344,19 +344,27 @@ func (e *EventBus) Commit(ctx context.Context) error {
 		return ErrNoTransaction
 	}
 
-	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
-	if err != nil && err != gorm.ErrRecordNotFound {
-		return err
-	}
-	// 事件已经发送过（例如上一次提交在删除事务记录前中断），只需要清理事务记录，否则会一直被回查
-	if err == gorm.ErrRecordNotFound {
-		err := e.Dispatch(ctx, tx.Events...)
-		if err != nil {
+	return e.getDB(ctx).Transaction(func(db *gorm.DB) error {
+		ctx := e.ctxWithDB(ctx, db)
+		// 锁住事务记录，否则提交与其他实例的回查可能同时进行，导致事件重复发送
+		if err := db.Clauses(clause.Locking{Strength: "UPDATE"}).Select("id").Where("id = ?", tx.ID).Find(&[]*Transaction{}).Error; err != nil {
 			return err
 		}
-	}
 
-	return e.getDB(ctx).Delete(tx).Error
+		err := db.Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
+		if err != nil && err != gorm.ErrRecordNotFound {
+			return err
+		}
+		// 事件已经发送过（例如已经由其他实例的回查提交），只需要清理事务记录，否则会一直被回查
+		if err == gorm.ErrRecordNotFound {
+			err := e.Dispatch(ctx, tx.Events...)
+			if err != nil {
+				return err
+			}
+		}
+
+		return db.Delete(tx).Error
+	})
 }
 
 // Rollback 回滚事务消息
-- 
2.43.0


From 91bbfaf2eae4f8baa70e8b6b2e2a7521092a4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:40 +0000
Subject: [PATCH 29/32] fix: release acquired locks when locking or unlocking
 another one panics

---
 engine.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/engine.go b/engine.go
index e4aeab1..baf518c 100644
--- a/engine.go
+++ b/engine.go
@@ -1264,7 +1264,6 @@ func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 		}
 
 		var lockErr error
-		ls := make([]interface{}, 0)
 		for _, id := range lockKeys {
 			l, err := e.locker.Lock(ctx, fmt.Sprintf("ddd_engine_%s", id))
 			if err != nil {
@@ -1273,16 +1272,9 @@ func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 				}
 				break
 			}
-			ls = append(ls, l)
+			// 每个锁单独 defer，获取或者释放其他锁时发生 panic 也能释放
+			defer e.unlock(ctx, l)
 		}
-		defer func() {
-			for _, l := range ls {
-				// ctx 可能已被取消，但锁仍然需要释放
-				if err := e.locker.UnLock(detachedContext{ctx}, l); err != nil {
-					e.logger.Error(err, "unlock failed")
-				}
-			}
-		}()
 
 		if lockErr != nil {
 			return ResultErrors(lockErr)
@@ -1291,6 +1283,13 @@ func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 	}
 }
 
+func (e *Stage) unlock(ctx context.Context, l interface{}) {
+	// ctx 可能已被取消，但锁仍然需要释放
+	if err := e.locker.UnLock(detachedContext{ctx}, l); err != nil {
+		e.logger.Error(err, "unlock failed")
+	}
+}
+
 func (e *Stage) runWithTransaction(f doSave) doSave {
 	return func(ctx context.Context) *Result {
 		ctx, err := e.executor.Begin(ctx)
-- 
2.43.0


From db4217ddd74d8bd4973d8ef43a74318116d73287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:16 +0000
Subject: [PATCH 30/32] fix: check every pending event transaction in a
 database transaction of its own

A deadlock while one of them was committed rolled back the whole database
transaction, the next ones were then dispatched statement by statement and
a failure or crash in between lost their events for some services.
---
 eventbus/mysql/eventbus.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index b5438b7..bf8e578 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -695,21 +695,29 @@ func (e *EventBus) checkTX(ctx context.Context, tx *Transaction) {
 }
 
 func (e *EventBus) handleTransactions() error {
-	return e.db.Transaction(func(db *gorm.DB) error {
-		ctx := e.ctxWithDB(context.TODO(), db)
-
-		trans := make([]*Transaction, 0)
-		if err := db.Clauses(clause.Locking{Strength: "UPDATE", Options: "NOWAIT"}).Where(
-			"service = ? and due_time < ?", e.serviceName, time.Now(),
-		).Find(&trans).Error; err != nil {
-			return err
-		}
+	trans := make([]*Transaction, 0)
+	if err := e.db.Where("service = ? and due_time < ?", e.serviceName, time.Now()).Find(&trans).Error; err != nil {
+		return err
+	}
 
-		for _, tx := range trans {
-			e.checkTX(ctx, tx)
+	for _, tx := range trans {
+		// 每个事务消息使用独立的 db 事务：死锁等错误会使数据库回滚整个 db 事务，后续语句将不再处于事务中
+		if err := e.db.Transaction(func(db *gorm.DB) error {
+			// 锁住记录，未能锁住说明其他实例正在处理，查不到说明已经处理完成
+			locked := make([]*Transaction, 0)
+			if err := db.Clauses(clause.Locking{Strength: "UPDATE", Options: "NOWAIT"}).Select("id").
+				Where("id = ?", tx.ID).Find(&locked).Error; err != nil {
+				return err
+			}
+			if len(locked) > 0 {
+				e.checkTX(e.ctxWithDB(context.TODO(), db), tx)
+			}
+			return nil
+		}); err != nil {
+			e.logger.Error(err, "[eventbus] check transaction failed", "transaction id", tx.ID)
 		}
-		return nil
-	})
+	}
+	return nil
 }
 
 // cleanEvents 先清理当前service的service_event，如果一个event 被所有service_event 都处理成功，则删除对应的event
-- 
2.43.0


From a6121e14d629a2da7f7995d3f5c8a4110108cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:16 +0000
Subject: [PATCH 31/32] fix: recognise embedded in gorm tags with spaces around
 their settings

---
 executor/mysql/diff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/executor/mysql/diff.go b/executor/mysql/diff.go
index 51b88da..78ac9ae 100644
--- a/executor/mysql/diff.go
+++ b/executor/mysql/diff.go
@@ -28,7 +28,7 @@ var schemaCache = &sync.Map{}
 func hasValue(tag, attr string) bool {
 	parts := strings.Split(tag, ";")
 	for _, p := range parts {
-		if strings.HasPrefix(strings.ToUpper(p), strings.ToUpper(attr)) {
+		if strings.HasPrefix(strings.ToUpper(strings.TrimSpace(p)), strings.ToUpper(attr)) {
 			return true
 		}
 	}
-- 
2.43.0


From 140bbf999aee8ca4b296d372b8f4051eb9edd831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:19 +0000
Subject: [PATCH 32/32] fix: quote the primary key column when deleting with
 the mysql executor

---
 executor/mysql/executor.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index a7954a3..1612589 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -122,17 +122,18 @@ var opMap = map[ddd.OpType]execFunc{
 
 		if len(s.PrimaryFields) == 1 {
 			// 单主键支持批量删除
-			pk := s.PrimaryFields[0].DBName
+			// 列名可能是保留字，由 gorm 负责转义
+			pk := clause.Column{Name: s.PrimaryFields[0].DBName}
 			poType := reflect.Indirect(reflect.ValueOf(po)).Type()
 			newPO := reflect.New(poType).Interface()
 			if len(a.Models) == 1 {
-				return db.Where(pk+" = ?", a.Models[0].GetID()).Delete(newPO).Error
+				return db.Where(clause.Eq{Column: pk, Value: a.Models[0].GetID()}).Delete(newPO).Error
 			}
-			ids := make([]string, 0)
+			ids := make([]interface{}, 0)
 			for _, m := range a.Models {
 				ids = append(ids, m.GetID())
 			}
-			return db.Where(pk+" in ?", ids).Delete(newPO).Error
+			return db.Where(clause.IN{Column: pk, Values: ids}).Delete(newPO).Error
 		}
 		// 复合主键的一个个删
 		for _, m := range a.Models {
-- 
2.43.0

