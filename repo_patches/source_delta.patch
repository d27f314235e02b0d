From d08ab630106acbdae34950e68b9aed595d1c2d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:17 +0000
Subject: [PATCH 01/46] fix: do not hide log properties from the garbage
 collector

The properties of the first event of a name were kept in the log site as a
pointer into the caller's stack (hidden behind a uintptr), so that a later
garbage collection or stack growth found a dangling pointer in the heap.
---
 countlog/context.go  | 45 ++++++++++------------------
 countlog/countlog.go | 71 +++++++++++++-------------------------------
 2 files changed, 36 insertions(+), 80 deletions(-)

diff --git a/countlog/context.go b/countlog/context.go
index 3a2e8b0..1e25371 100644
--- a/countlog/context.go
+++ b/countlog/context.go
@@ -3,7 +3,6 @@ package countlog
 import (
 	"context"
 	"github.com/v2pro/plz/countlog/spi"
-	"unsafe"
 )
 
 func Ctx(ctx context.Context) *Context {
@@ -38,24 +37,21 @@ func (ctx *Context) Trace(event string, properties ...interface{}) {
 	if LevelTrace < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
 	if LevelTrace < ctx.suppressedMinLevel {
-		addMemo(LevelTrace, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+		addMemo(LevelTrace, event, "", ctx, nil, properties)
 		return
 	}
-	log(LevelTrace, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelTrace, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) TraceCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", ctx, err, properties)
 	}
 	if LevelTrace < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelTrace, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelTrace, event, "call", ctx, err, properties)
 	return nil
 }
 
@@ -63,20 +59,17 @@ func (ctx *Context) Debug(event string, properties ...interface{}) {
 	if LevelDebug < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelDebug, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelDebug, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) DebugCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", ctx, err, properties)
 	}
 	if LevelDebug < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelDebug, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelDebug, event, "call", ctx, err, properties)
 	return nil
 }
 
@@ -84,49 +77,41 @@ func (ctx *Context) Info(event string, properties ...interface{}) {
 	if LevelInfo < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelInfo, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelInfo, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) InfoCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", ctx, err, properties)
 	}
 	if LevelInfo < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelInfo, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelInfo, event, "call", ctx, err, properties)
 	return nil
 }
 
 func (ctx *Context) LogAccess(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelError, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelError, event, "call", ctx, err, properties)
 	}
 	if LevelInfo < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelInfo, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelInfo, event, "call", ctx, err, properties)
 	return nil
 }
 
 func (ctx *Context) Warn(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelWarn, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelWarn, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) Error(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelError, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelError, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) Fatal(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelFatal, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelFatal, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) Add(key string, value interface{}) {
diff --git a/countlog/countlog.go b/countlog/countlog.go
index 05abc1f..86882ac 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -1,7 +1,6 @@
 package countlog
 
 import (
-	"unsafe"
 	"runtime"
 	"time"
 	"github.com/v2pro/plz/countlog/spi"
@@ -38,22 +37,19 @@ func Trace(event string, properties ...interface{}) {
 	if LevelTrace < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelTrace, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelTrace, event, "", nil, nil, properties)
 }
 
 // TraceCall will calculate stats in TRACE level
 // TraceCall will output individual log entries in TRACE_CALL level
 func TraceCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", nil, err, properties)
 	}
 	if LevelTrace < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelTrace, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelTrace, event, "call", nil, err, properties)
 	return nil
 }
 
@@ -61,22 +57,19 @@ func Debug(event string, properties ...interface{}) {
 	if LevelDebug < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelDebug, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelDebug, event, "", nil, nil, properties)
 }
 
 // DebugCall will calculate stats in DEBUG level
 // DebugCall will output individual log entries in DEBUG_CALL level (TRACE includes DEBUG_CALL)
 func DebugCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", nil, err, properties)
 	}
 	if LevelDebug < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelDebug, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelDebug, event, "call", nil, err, properties)
 	return nil
 }
 
@@ -84,46 +77,39 @@ func Info(event string, properties ...interface{}) {
 	if LevelInfo < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelInfo, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelInfo, event, "", nil, nil, properties)
 }
 
 // InfoCall will calculate stats in INFO level
 // InfoCall will output individual log entries in INFO_CALL level (DEBUG includes INFO_CALL)
 func InfoCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", nil, err, properties)
 	}
 	if LevelInfo < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelInfo, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelInfo, event, "call", nil, err, properties)
 	return nil
 }
 
 func Warn(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelWarn, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelWarn, event, "", nil, nil, properties)
 }
 
 func Error(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelError, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelError, event, "", nil, nil, properties)
 }
 
 func Fatal(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelFatal, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelFatal, event, "", nil, nil, properties)
 }
 
 func Log(level int, event string, properties ...interface{}) {
 	if level < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(level, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(level, event, "", nil, nil, properties)
 }
 
 func LogPanic(recovered interface{}, properties ...interface{}) interface{} {
@@ -152,17 +138,15 @@ func log(level int, eventName string, agg string, ctx *Context, err error, prope
 		Timestamp:  time.Now(),
 		Properties: properties,
 	}
-	ptr := unsafe.Pointer(event)
-	castedEvent := castEvent(uintptr(ptr))
-	handler.Handle(castedEvent)
-	if castedEvent.Error != nil {
+	handler.Handle(event)
+	if event.Error != nil {
 		formatter := msgfmt.FormatterOf(eventName, properties)
 		errMsg := formatter.Format(nil, properties)
 		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, castedEvent.Error.Error()...)
-		castedEvent.Error = errors.New(string(errMsg))
+		errMsg = append(errMsg, event.Error.Error()...)
+		event.Error = errors.New(string(errMsg))
 	}
-	return castedEvent.Error
+	return event.Error
 }
 
 func addMemo(level int, eventName string, agg string, ctx *Context, err error, properties []interface{}) {
@@ -173,28 +157,15 @@ func addMemo(level int, eventName string, agg string, ctx *Context, err error, p
 		Timestamp:  time.Now(),
 		Properties: properties,
 	}
-	ptr := unsafe.Pointer(event)
-	castedEvent := castEvent(uintptr(ptr))
-	if castedEvent.Error != nil {
+	if event.Error != nil {
 		formatter := msgfmt.FormatterOf(eventName, properties)
 		errMsg := formatter.Format(nil, properties)
 		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, castedEvent.Error.Error()...)
-		castedEvent.Error = errors.New(string(errMsg))
+		errMsg = append(errMsg, event.Error.Error()...)
+		event.Error = errors.New(string(errMsg))
 	}
 }
 
-func castEmptyInterfaces(ptr uintptr) []interface{} {
-	return *(*[]interface{})(unsafe.Pointer(ptr))
-}
-
-func castEvent(ptr uintptr) *spi.Event {
-	return (*spi.Event)(unsafe.Pointer(ptr))
-}
-func castString(ptr uintptr) string {
-	return *(*string)(unsafe.Pointer(ptr))
-}
-
 func getHandler(event string, agg string, ctx *Context, properties []interface{}) spi.EventHandler {
 	handler, found := handlerCache.Load(event)
 	if found {
-- 
2.43.0


From 7745de1f975ca7a41334e16d5d3eb15ec6cf1803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:23 +0000
Subject: [PATCH 02/46] fix: count dropped messages atomically

Several goroutines can drop messages at the same time; the unsynchronised
counter lost increments, so the congestion report came late, twice or never.
---
 countlog/output/async/async.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 7a30e2a..372860f 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"sync/atomic"
 	"time"
 
 	"github.com/v2pro/plz/concurrent"
@@ -40,11 +41,11 @@ func NewAsyncWriter(cfg AsyncWriterConfig) ClosableWriter {
 	}
 	onMessageDropped := cfg.OnMessageDropped
 	if onMessageDropped == nil {
-		droppedCount := 0
+		droppedCount := int64(0)
 		onMessageDropped = func(msg []byte) {
-			droppedCount++
-			if droppedCount%1000 == 1 {
-				loglog.Error(fmt.Errorf("countlog async writer congestion, dropped %v messages so far", droppedCount))
+			dropped := atomic.AddInt64(&droppedCount, 1)
+			if dropped%1000 == 1 {
+				loglog.Error(fmt.Errorf("countlog async writer congestion, dropped %v messages so far", dropped))
 			}
 		}
 	}
-- 
2.43.0


From 8160076852ffaff54954f78e1986df08b0092dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:57 +0000
Subject: [PATCH 03/46] fix: give every invocation of a gls wrapped function
 its own storage

The map copied by WithGls was shared by all invocations of the returned
function, and calling a wrapped function synchronously inside another scope
deleted the storage of the caller.
---
 gls/gls.go | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/gls/gls.go b/gls/gls.go
index a8613ec..51ce920 100644
--- a/gls/gls.go
+++ b/gls/gls.go
@@ -55,30 +55,45 @@ func WithGls(f func()) func() {
 	parentGls := GetGls(GoID())
 	// parentGls can not be used in other goroutine, otherwise not thread safe
 	// make a deep for child goroutine
-	childGls := map[interface{}]interface{}{}
-	for k, v := range parentGls {
+	childGls := copyGls(parentGls)
+	return func() {
+		// every invocation has its own map, the function might be called more than once
+		runWithGls(copyGls(childGls), f)
+	}
+}
+
+func copyGls(gls map[interface{}]interface{}) map[interface{}]interface{} {
+	copied := map[interface{}]interface{}{}
+	for k, v := range gls {
 		asCopiable, ok := v.(copiable)
 		if ok {
-			childGls[k] = asCopiable.Copy()
+			copied[k] = asCopiable.Copy()
 		} else {
-			childGls[k] = v
+			copied[k] = v
 		}
 	}
-	return func() {
-		goid := GoID()
-		ResetGls(goid, childGls)
-		defer DeleteGls(goid)
-		f()
-	}
+	return copied
+}
+
+// runWithGls runs f with the given gls, then restores what the goroutine had before
+func runWithGls(gls map[interface{}]interface{}, f func()) {
+	goid := GoID()
+	previousGls := GetGls(goid)
+	ResetGls(goid, gls)
+	defer func() {
+		if previousGls == nil {
+			DeleteGls(goid)
+		} else {
+			ResetGls(goid, previousGls)
+		}
+	}()
+	f()
 }
 
 func WithEmptyGls(f func()) func() {
 	// do not inherit from parent gls
 	return func() {
-		goid := GoID()
-		ResetGls(goid, make(map[interface{}]interface{}))
-		defer DeleteGls(goid)
-		f()
+		runWithGls(make(map[interface{}]interface{}), f)
 	}
 }
 
-- 
2.43.0


From 56071d9a5e855feaf434d02237d68c0d4350b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:14 +0000
Subject: [PATCH 04/46] fix: stop reading unicode ranges at the end of input

At the end of input the loops never ended, and a rune matching one of the
included tables ended the loop or was consumed once per matching table.
---
 parse/read/range.go | 9 ++++++---
 parse/skip/range.go | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/parse/read/range.go b/parse/read/range.go
index be83a0e..66d6571 100644
--- a/parse/read/range.go
+++ b/parse/read/range.go
@@ -6,7 +6,7 @@ import (
 )
 
 func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []rune {
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -15,10 +15,12 @@ func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []
 		}
 		return space
 	}
+	return space
 }
 
 func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) []rune {
-	for {
+nextRune:
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		for _, exclude := range excludes {
 			if unicode.Is(exclude, r) {
@@ -34,9 +36,10 @@ func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTab
 			if unicode.Is(include, r) {
 				src.ConsumeN(n)
 				space = append(space, r)
-				continue
+				continue nextRune
 			}
 		}
 		return space
 	}
+	return space
 }
diff --git a/parse/skip/range.go b/parse/skip/range.go
index d2286c5..9cb3269 100644
--- a/parse/skip/range.go
+++ b/parse/skip/range.go
@@ -7,7 +7,7 @@ import (
 
 func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 	count := 0
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -16,11 +16,13 @@ func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 		}
 		return count
 	}
+	return count
 }
 
 func UnicodeRanges(src *parse.Source, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) int {
 	count := 0
-	for {
+nextRune:
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		for _, exclude := range excludes {
 			if unicode.Is(exclude, r) {
@@ -31,9 +33,10 @@ func UnicodeRanges(src *parse.Source, includes []*unicode.RangeTable, excludes [
 			if unicode.Is(include, r) {
 				src.ConsumeN(n)
 				count += n
-				continue
+				continue nextRune
 			}
 		}
 		return count
 	}
+	return count
 }
-- 
2.43.0


From bf992d9fce0e31a5a3a852741b8fe552c91f7d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:14 +0000
Subject: [PATCH 05/46] fix: deliver everything the reader returned before
 reporting its error

Bytes returned together with an error were dropped, empty reads gave an empty
current chunk (and NewSource neither a source nor an error), an error met while
peeking was forgotten, and consuming past the end never returned.
---
 parse/parse.go | 64 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index fc60f5d..067665f 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -51,6 +51,7 @@ func Parse(src *Source, lexer Lexer, precedence int) interface{} {
 type Source struct {
 	err        error
 	reader     io.Reader
+	readerErr  error // reported when everything read before it has been consumed
 	current    []byte
 	nextList   [][]byte
 	buf        []byte
@@ -58,21 +59,42 @@ type Source struct {
 }
 
 func NewSource(reader io.Reader, buf []byte) (*Source, error) {
-	n, err := reader.Read(buf)
-	if n == 0 {
-		return nil, err
+	src := &Source{
+		reader: reader,
+		buf:    buf,
 	}
-	return &Source{
-		reader:  reader,
-		current: buf[:n],
-		buf:     buf,
-	}, nil
+	src.current = src.read(buf)
+	if len(src.current) == 0 {
+		return nil, src.readerErr
+	}
+	return src, nil
+}
+
+const maxConsecutiveEmptyReads = 100
+
+// read returns the next bytes of reader, or nil with readerErr set if there is no more.
+func (src *Source) read(buf []byte) []byte {
+	for i := 0; src.readerErr == nil; i++ {
+		n, err := src.reader.Read(buf)
+		if err == nil && n == 0 && i+1 == maxConsecutiveEmptyReads {
+			err = io.ErrNoProgress
+		}
+		src.readerErr = err
+		if n > 0 {
+			return buf[:n]
+		}
+	}
+	return nil
 }
 
 func NewSourceString(src string) *Source {
-	return &Source{
+	source := &Source{
 		current: []byte(src),
 	}
+	if len(src) == 0 {
+		source.ReportError(io.EOF)
+	}
+	return source
 }
 
 func (src *Source) SetBuffer(buf []byte) {
@@ -94,7 +116,7 @@ func (src *Source) PeekN(n int) ([]byte, error) {
 	if src.reader == nil {
 		return src.current, io.EOF
 	}
-	peeked := src.current
+	peeked := append([]byte(nil), src.current...)
 	for _, next := range src.nextList {
 		peeked = append(peeked, next...)
 		if len(peeked) >= n {
@@ -102,22 +124,25 @@ func (src *Source) PeekN(n int) ([]byte, error) {
 		}
 	}
 	for {
-		buf := make([]byte, len(src.buf))
-		read, err := src.reader.Read(buf)
-		next := buf[:read]
+		next := src.read(make([]byte, len(src.buf)))
+		if len(next) == 0 {
+			return peeked, src.readerErr
+		}
 		peeked = append(peeked, next...)
 		src.nextList = append(src.nextList, next)
 		if len(peeked) >= n {
 			return peeked[:n], nil
 		}
-		if err != nil {
-			return peeked, err
-		}
 	}
 }
 
 func (src *Source) ConsumeN(n int) {
 	for n != 0 && n >= len(src.current) {
+		if len(src.current) == 0 {
+			// nothing left
+			src.Consume()
+			return
+		}
 		n -= len(src.current)
 		src.Consume()
 	}
@@ -144,11 +169,10 @@ func (src *Source) Consume() {
 		src.nextList = src.nextList[1:]
 		return
 	}
-	n, err := src.reader.Read(src.buf)
-	if err != nil {
-		src.ReportError(err)
+	src.current = src.read(src.buf)
+	if len(src.current) == 0 {
+		src.ReportError(src.readerErr)
 	}
-	src.current = src.buf[:n]
 }
 
 func (src *Source) PeekRune() (rune, int) {
-- 
2.43.0


From 825d4dce70dcd57720f78a905e8b3ab9741bf890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:49 +0000
Subject: [PATCH 06/46] fix: do not reuse a compiled format for arguments of
 another shape

---
 msgfmt/msgfmt.go | 48 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index e08557b..4d5c5e1 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -3,6 +3,7 @@ package msgfmt
 import (
 	"io"
 	"os"
+	"reflect"
 	"sync"
 	"unsafe"
 	"fmt"
@@ -69,12 +70,47 @@ func fprintf(writer io.Writer, format string, kv []interface{}) (int, error) {
 
 var formatterCache = concurrent.NewMap()
 
+// cachedFormatter only applies to arguments of the shape it was compiled for
+type cachedFormatter struct {
+	keys      []string
+	types     []reflect.Type
+	formatter Formatter
+}
+
+func (cached *cachedFormatter) applies(kv []interface{}) bool {
+	if len(kv) != len(cached.keys)+len(cached.types) {
+		return false
+	}
+	for i, obj := range kv {
+		if i%2 == 1 {
+			if reflect.TypeOf(obj) != cached.types[i/2] {
+				return false
+			}
+			continue
+		}
+		key, _ := obj.(string)
+		if key != cached.keys[i/2] {
+			return false
+		}
+	}
+	return true
+}
+
+// FormatterOf returns the formatter of format for arguments with the keys and types of sample
 func FormatterOf(format string, sample []interface{}) Formatter {
-	formatterObj, found := formatterCache.Load(format)
-	if found {
-		return formatterObj.(Formatter)
+	cachedObj, found := formatterCache.Load(format)
+	if found && cachedObj.(*cachedFormatter).applies(sample) {
+		return cachedObj.(*cachedFormatter).formatter
+	}
+	cached := &cachedFormatter{formatter: compile(format, sample)}
+	for i, obj := range sample {
+		if i%2 == 1 {
+			cached.types = append(cached.types, reflect.TypeOf(obj))
+			continue
+		}
+		key, _ := obj.(string)
+		cached.keys = append(cached.keys, key)
 	}
-	formatter := compile(format, sample)
-	formatterCache.Store(format, formatter)
-	return formatter
+	formatterCache.Store(format, cached)
+	return cached.formatter
 }
\ No newline at end of file
-- 
2.43.0


From 261ded2afb2fed3d0bce4cb2d8e9fbdc094027fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:09 +0000
Subject: [PATCH 07/46] fix: do not hide format arguments from the garbage
 collector

---
 msgfmt/msgfmt.go | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index 4d5c5e1..e77a94f 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -5,10 +5,8 @@ import (
 	"os"
 	"reflect"
 	"sync"
-	"unsafe"
 	"fmt"
 	"github.com/v2pro/plz/concurrent"
-	"github.com/v2pro/plz/reflect2"
 )
 
 var bufPool = &sync.Pool{
@@ -17,22 +15,16 @@ var bufPool = &sync.Pool{
 	},
 }
 
-func Sprintf(format string, kvObj ...interface{}) string {
-	ptr := reflect2.NoEscape(unsafe.Pointer(&kvObj))
-	kv := *(*[]interface{})(ptr)
+func Sprintf(format string, kv ...interface{}) string {
 	buf := FormatterOf(format, kv).Format(nil, kv)
 	return string(buf)
 }
 
-func Println(valuesObj ...interface{}) (int, error) {
-	ptr := reflect2.NoEscape(unsafe.Pointer(&valuesObj))
-	values := *(*[]interface{})(ptr)
+func Println(values ...interface{}) (int, error) {
 	return fprintln(os.Stdout, values)
 }
 
-func Fprintln(writer io.Writer, valuesObj ...interface{}) (int, error) {
-	ptr := reflect2.NoEscape(unsafe.Pointer(&valuesObj))
-	values := *(*[]interface{})(ptr)
+func Fprintln(writer io.Writer, values ...interface{}) (int, error) {
 	return fprintln(writer, values)
 }
 
@@ -47,15 +39,11 @@ func fprintln(writer io.Writer, values []interface{}) (int, error) {
 	}
 }
 
-func Printf(format string, kvObj ...interface{}) (int, error) {
-	ptr := reflect2.NoEscape(unsafe.Pointer(&kvObj))
-	kv := *(*[]interface{})(ptr)
+func Printf(format string, kv ...interface{}) (int, error) {
 	return fprintf(os.Stdout, format, kv)
 }
 
-func Fprintf(writer io.Writer, format string, kvObj ...interface{}) (int, error) {
-	ptr := reflect2.NoEscape(unsafe.Pointer(&kvObj))
-	kv := *(*[]interface{})(ptr)
+func Fprintf(writer io.Writer, format string, kv ...interface{}) (int, error) {
 	return fprintf(writer, format, kv)
 }
 
-- 
2.43.0


From 977c1d90d10affcef7cca5b28f073f94b66c6b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:09 +0000
Subject: [PATCH 08/46] fix: write the empty line to the given writer

---
 msgfmt/msgfmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index e77a94f..7779483 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -31,7 +31,7 @@ func Fprintln(writer io.Writer, values ...interface{}) (int, error) {
 func fprintln(writer io.Writer, values []interface{}) (int, error) {
 	switch len(values) {
 	case 0:
-		return fmt.Println()
+		return fmt.Fprintln(writer)
 	case 1:
 		return Fprintf(writer,"{single_value}\n", "single_value", values[0])
 	default:
-- 
2.43.0


From 681f0bcfccc058f08c74c3a52556e8b9b13118f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:33 +0000
Subject: [PATCH 09/46] fix: report malformed message formats instead of
 panicking

---
 msgfmt/formatter.go |  6 ++++++
 msgfmt/parse.go     | 32 +++++++++++++++++++++++++++-----
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 6819826..897467c 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -91,6 +91,12 @@ func compile(format string, sample []interface{}) Formatter {
 	formatter := toFormatter.Parse(src, 0)
 	if src.Error() != nil {
 		if src.Error() == io.EOF {
+			if len(format) == 0 {
+				return fixedFormatter("")
+			}
+			if formatter == nil {
+				return invalidFormatter("format not terminated")
+			}
 			return formatter.(Formatter)
 		}
 		return invalidFormatter(src.Error().Error())
diff --git a/msgfmt/parse.go b/msgfmt/parse.go
index 4099f66..3a97794 100644
--- a/msgfmt/parse.go
+++ b/msgfmt/parse.go
@@ -36,10 +36,15 @@ func newLexer(initLexer func(l *lexer)) *lexer {
 func (lexer *lexer) Parse(src *parse.Source, precedence int) interface{} {
 	var left interface{}
 	for src.Error() == nil {
+		right := parse.Parse(src, lexer, precedence)
+		if right == nil {
+			// the error has been reported
+			return nil
+		}
 		if left == nil {
-			left = parse.Parse(src, lexer, precedence)
+			left = right
 		} else {
-			left = lexer.merge(left, parse.Parse(src, lexer, precedence))
+			left = lexer.merge(left, right)
 		}
 	}
 	return left
@@ -64,6 +69,9 @@ type leftCurlyToken struct {
 
 func (token *leftCurlyToken) PrefixParse(src *parse.Source) interface{} {
 	src.Consume1('{')
+	if src.Error() != nil {
+		return nil
+	}
 	obj := parse.Parse(src, token.lexer.variable, 0)
 	if src.Error() != nil {
 		return nil
@@ -72,6 +80,9 @@ func (token *leftCurlyToken) PrefixParse(src *parse.Source) interface{} {
 	if isId {
 		obj = token.lexer.parseVariable(src, id)
 	}
+	if src.Error() != nil {
+		return nil
+	}
 	rightFormatter := obj.(Formatter)
 	src.Consume1('}')
 	return rightFormatter
@@ -106,6 +117,9 @@ func (lexer *variableLexer) PrefixToken(src *parse.Source) parse.PrefixToken {
 
 func (lexer *variableLexer) InfixToken(src *parse.Source) (parse.InfixToken, int) {
 	skip.UnicodeSpace(src)
+	if src.Error() != nil {
+		return nil, 0
+	}
 	switch src.Peek()[0] {
 	case ',':
 		return lexer.comma, parse.DefaultPrecedence
@@ -136,7 +150,10 @@ type commaToken struct {
 
 func (token *commaToken) InfixParse(src *parse.Source, left interface{}) interface{} {
 	src.Consume1(',')
-	funcInvocation := parse.Parse(src, token.lexer.formatter, 0).(funcInvocation)
+	funcInvocation, _ := parse.Parse(src, token.lexer.formatter, 0).(funcInvocation)
+	if src.Error() != nil {
+		return nil
+	}
 	return token.lexer.parseFunc(src, left.(string), funcInvocation.name, funcInvocation.args)
 }
 
@@ -157,9 +174,11 @@ func (lexer *formatterLexer) PrefixToken(src *parse.Source) parse.PrefixToken {
 	str := string(buf)
 	switch str {
 	case "select":
-		panic("not implemented")
+		src.ReportError(errors.New("select is not implemented"))
+		return nil
 	case "plural":
-		panic("not implemented")
+		src.ReportError(errors.New("plural is not implemented"))
+		return nil
 	default:
 		return lexer.funcName
 	}
@@ -183,6 +202,9 @@ func (token *funcNameToken) PrefixParse(src *parse.Source) interface{} {
 	var args []string
 	for {
 		skip.UnicodeSpace(src)
+		if src.Error() != nil {
+			return funcInvocation{name, args}
+		}
 		switch src.Peek1() {
 		case ',':
 			src.Consume1(',')
-- 
2.43.0


From b31e74bc224047666b7ef185b4d4b06af1e5d71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:53 +0000
Subject: [PATCH 10/46] fix: render nil as null

---
 countlog/output/json/json.go |  2 +-
 msgfmt/formatter.go          |  3 +--
 msgfmt/jsonfmt/encoder.go    | 10 ++++++++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/countlog/output/json/json.go b/countlog/output/json/json.go
index 413a0df..468055b 100644
--- a/countlog/output/json/json.go
+++ b/countlog/output/json/json.go
@@ -21,7 +21,7 @@ func (format *JsonFormat) FormatterOf(site *spi.LogSite) output.Formatter {
 		formatter.props = append(formatter.props, jsonFormatterProp{
 			prefix:  prefix,
 			idx:     i + 1,
-			encoder: jsonfmt.EncoderOf(reflect2.TypeOf(site.Sample[i+1])),
+			encoder: jsonfmt.EncoderOfObject(site.Sample[i+1]),
 		})
 	}
 	return formatter
diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 897467c..855fd50 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -5,7 +5,6 @@ import (
 	"github.com/v2pro/plz/parse"
 	"fmt"
 	"github.com/v2pro/plz/msgfmt/jsonfmt"
-	"github.com/v2pro/plz/reflect2"
 )
 
 type Formatter interface {
@@ -50,7 +49,7 @@ var toFormatter = newLexer(func(l *lexer) {
 		default:
 			return &jsonFormatter{
 				idx:     idx,
-				encoder: jsonfmt.EncoderOf(reflect2.TypeOf(sampleValue)),
+				encoder: jsonfmt.EncoderOfObject(sampleValue),
 			}
 		}
 	}
diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index f3a8cc2..44f87e8 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -54,6 +54,9 @@ func (cfg Config) Froze() API {
 }
 
 func (cfg *frozenConfig) EncoderOfObject(obj interface{}) Encoder {
+	if obj == nil {
+		return &nilEncoder{}
+	}
 	cacheKey := reflect2.RTypeOf(obj)
 	encoderObj, found := cfg.encoderCache.Load(cacheKey)
 	if found {
@@ -175,6 +178,13 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 	return &unsupportedEncoder{fmt.Sprintf(`"can not encode %s %s to json"`, valType.String(), prefix)}
 }
 
+type nilEncoder struct {
+}
+
+func (encoder *nilEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	return append(space, 'n', 'u', 'l', 'l')
+}
+
 type unsupportedEncoder struct {
 	msg string
 }
-- 
2.43.0


From 1f5b4f9ec01abd1dc42b41cc256b2d03fa6cb253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 11/46] fix: initialize map iterators the way go 1.18 and above
 expects

---
 reflect2/go_above_118.go | 19 +++++++++++++++++++
 reflect2/go_below_118.go | 17 +++++++++++++++++
 reflect2/unsafe_link.go  | 21 ++++++++++++++-------
 reflect2/unsafe_map.go   |  2 +-
 4 files changed, 51 insertions(+), 8 deletions(-)
 create mode 100644 reflect2/go_above_118.go
 create mode 100644 reflect2/go_below_118.go

diff --git a/reflect2/go_above_118.go b/reflect2/go_above_118.go
new file mode 100644
index 0000000..d0c15df
--- /dev/null
+++ b/reflect2/go_above_118.go
@@ -0,0 +1,19 @@
+//+build go1.18
+
+package reflect2
+
+import (
+	"unsafe"
+)
+
+// m escapes into the iterator, but the caller of mapiterinit
+// doesn't let the iterator escape.
+//go:noescape
+//go:linkname mapiterinit reflect.mapiterinit
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer, it *hiter)
+
+func newMapIterator(rtype unsafe.Pointer, m unsafe.Pointer) *hiter {
+	var it hiter
+	mapiterinit(rtype, m, &it)
+	return &it
+}
diff --git a/reflect2/go_below_118.go b/reflect2/go_below_118.go
new file mode 100644
index 0000000..9791ddc
--- /dev/null
+++ b/reflect2/go_below_118.go
@@ -0,0 +1,17 @@
+//+build !go1.18
+
+package reflect2
+
+import (
+	"unsafe"
+)
+
+// m escapes into the return value, but the caller of mapiterinit
+// doesn't let the return value escape.
+//go:noescape
+//go:linkname mapiterinit reflect.mapiterinit
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
+
+func newMapIterator(rtype unsafe.Pointer, m unsafe.Pointer) *hiter {
+	return mapiterinit(rtype, m)
+}
diff --git a/reflect2/unsafe_link.go b/reflect2/unsafe_link.go
index a25a5f4..330faa8 100644
--- a/reflect2/unsafe_link.go
+++ b/reflect2/unsafe_link.go
@@ -25,12 +25,6 @@ func mapassign(rtype unsafe.Pointer, m unsafe.Pointer, key, val unsafe.Pointer)
 //go:noescape
 func mapaccess(rtype unsafe.Pointer, m unsafe.Pointer, key unsafe.Pointer) (val unsafe.Pointer)
 
-// m escapes into the return value, but the caller of mapiterinit
-// doesn't let the return value escape.
-//go:noescape
-//go:linkname mapiterinit reflect.mapiterinit
-func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
-
 //go:noescape
 //go:linkname mapiternext reflect.mapiternext
 func mapiternext(it *hiter)
@@ -44,7 +38,20 @@ func ifaceE2I(rtype unsafe.Pointer, src interface{}, dst unsafe.Pointer)
 type hiter struct {
 	key   unsafe.Pointer // Must be in first position.  Write nil to indicate iteration end (see cmd/internal/gc/range.go).
 	value unsafe.Pointer // Must be in second position (see cmd/internal/gc/range.go).
-	// rest fields are ignored
+	// rest fields are only used by the runtime
+	t           unsafe.Pointer
+	h           unsafe.Pointer
+	buckets     unsafe.Pointer
+	bptr        unsafe.Pointer
+	overflow    *[]unsafe.Pointer
+	oldoverflow *[]unsafe.Pointer
+	startBucket uintptr
+	offset      uint8
+	wrapped     bool
+	B           uint8
+	i           uint8
+	bucket      uintptr
+	checkBucket uintptr
 }
 
 // add returns p+x.
diff --git a/reflect2/unsafe_map.go b/reflect2/unsafe_map.go
index f2e76e6..6321ae7 100644
--- a/reflect2/unsafe_map.go
+++ b/reflect2/unsafe_map.go
@@ -109,7 +109,7 @@ func (type2 *UnsafeMapType) Iterate(obj interface{}) MapIterator {
 
 func (type2 *UnsafeMapType) UnsafeIterate(obj unsafe.Pointer) MapIterator {
 	return &UnsafeMapIterator{
-		hiter:      mapiterinit(type2.rtype, *(*unsafe.Pointer)(obj)),
+		hiter:      newMapIterator(type2.rtype, *(*unsafe.Pointer)(obj)),
 		pKeyRType:  type2.pKeyRType,
 		pElemRType: type2.pElemRType,
 	}
-- 
2.43.0


From 8d22a5eeb71ca06db455aa4646be3118702e98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:55 +0000
Subject: [PATCH 12/46] fix: tolerate arguments that are not key value pairs

---
 msgfmt/custom.go    | 6 +++---
 msgfmt/formatter.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/msgfmt/custom.go b/msgfmt/custom.go
index 282eb66..f209833 100644
--- a/msgfmt/custom.go
+++ b/msgfmt/custom.go
@@ -35,9 +35,9 @@ func (format *GoTimeFormat) FormatterOf(targetKey string, formatArgs []string, s
 	if len(formatArgs) == 0 {
 		formatArgs = append(formatArgs, time.RFC3339)
 	}
-	for i := 0; i < len(sample); i+= 2{
-		key := sample[i].(string)
-		if key == targetKey {
+	for i := 0; i+1 < len(sample); i += 2 {
+		key, isString := sample[i].(string)
+		if isString && key == targetKey {
 			_, isTime := sample[i+1].(time.Time)
 			if !isTime {
 				return nil, fmt.Errorf("%s is not time.Time", targetKey)
diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 855fd50..d1dd28a 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -75,9 +75,9 @@ var toFormatter = newLexer(func(l *lexer) {
 })
 
 func findValueIndex(sample []interface{}, target string) int {
-	for i := 0; i < len(sample); i += 2 {
-		key := sample[i].(string)
-		if key == target {
+	for i := 0; i+1 < len(sample); i += 2 {
+		key, isString := sample[i].(string)
+		if isString && key == target {
 			return i + 1
 		}
 	}
-- 
2.43.0


From 51b46b3516869fb8aa5d806ecab7bd7416273942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:20 +0000
Subject: [PATCH 13/46] fix: log every close failure with its own error only

---
 closer.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/closer.go b/closer.go
index 3ab67c9..9ad49d8 100644
--- a/closer.go
+++ b/closer.go
@@ -31,8 +31,7 @@ func Close(resource io.Closer, properties ...interface{}) error {
 	if err != nil {
 		_, file, line, _ := runtime.Caller(1)
 		closedAt := fmt.Sprintf("%s:%d", file, line)
-		properties = append(properties, "err", err)
-		countlog.Error("event!close "+closedAt, properties...)
+		countlog.Error("event!close "+closedAt, withErr(properties, err)...)
 		return err
 	}
 	return nil
@@ -45,8 +44,7 @@ func CloseAll(resources []io.Closer, properties ...interface{}) error {
 		if err != nil {
 			_, file, line, _ := runtime.Caller(1)
 			closedAt := fmt.Sprintf("%s:%d", file, line)
-			properties = append(properties, "err", err)
-			countlog.Error("event!CloseAll called from "+closedAt, properties...)
+			countlog.Error("event!CloseAll called from "+closedAt, withErr(properties, err)...)
 			errs = append(errs, err)
 		}
 	}
@@ -58,6 +56,13 @@ func CloseAll(resources []io.Closer, properties ...interface{}) error {
 	return MergeErrors(errs...)
 }
 
+// withErr leaves properties alone, the caller might still use them
+func withErr(properties []interface{}, err error) []interface{} {
+	copied := make([]interface{}, 0, len(properties)+2)
+	copied = append(copied, properties...)
+	return append(copied, "err", err)
+}
+
 type funcResource struct {
 	f func() error
 }
-- 
2.43.0


From 8f75c8e5713b78d1dcfa55d480c9e04cec7e3b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:20 +0000
Subject: [PATCH 14/46] fix: do not append to the properties of the caller of
 LogPanic

---
 countlog/countlog.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 86882ac..94ecb61 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -119,7 +119,8 @@ func LogPanic(recovered interface{}, properties ...interface{}) interface{} {
 	buf := make([]byte, 1<<16)
 	runtime.Stack(buf, false)
 	if len(properties) > 0 {
-		properties = append(properties, "err", recovered, "stacktrace", string(buf))
+		// do not write into the slice of the caller
+		properties = append(properties[:len(properties):len(properties)], "err", recovered, "stacktrace", string(buf))
 		Fatal("event!panic", properties...)
 	} else {
 		Fatal("event!panic", "err", recovered, "stacktrace", string(buf))
-- 
2.43.0


From 14aaea25ea3aa81fc58fe93c131b38c938ab1e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:45 +0000
Subject: [PATCH 15/46] fix: handle an event with a handler built for its own
 properties

---
 countlog/context.go  |  7 +++++
 countlog/countlog.go | 19 +++++++-----
 countlog/root.go     | 40 -------------------------
 countlog/shape.go    | 69 ++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 88 insertions(+), 47 deletions(-)
 create mode 100644 countlog/shape.go

diff --git a/countlog/context.go b/countlog/context.go
index 1e25371..ed5f0e3 100644
--- a/countlog/context.go
+++ b/countlog/context.go
@@ -19,6 +19,13 @@ type Context struct {
 	suppressedMinLevel int
 }
 
+func (ctx *Context) properties() []interface{} {
+	if ctx == nil || ctx.logContext == nil {
+		return nil
+	}
+	return ctx.logContext.Properties
+}
+
 func (ctx *Context) SuppressLevelsBelow(level int) {
 	ctx.suppressedMinLevel = level
 }
diff --git a/countlog/countlog.go b/countlog/countlog.go
index 94ecb61..1193efb 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -168,14 +168,17 @@ func addMemo(level int, eventName string, agg string, ctx *Context, err error, p
 }
 
 func getHandler(event string, agg string, ctx *Context, properties []interface{}) spi.EventHandler {
-	handler, found := handlerCache.Load(event)
-	if found {
-		return handler.(spi.EventHandler)
+	cached, _ := handlerCache.Load(event)
+	handlers, _ := cached.(*handlerOfShape)
+	for candidate := handlers; candidate != nil; candidate = candidate.next {
+		if candidate.matches(agg, ctx, properties) {
+			return candidate.handler
+		}
 	}
-	return newHandler(event, agg, ctx, properties)
+	return newHandler(event, agg, ctx, properties, handlers)
 }
 
-func newHandler(eventName string, agg string, ctx *Context, properties []interface{}) spi.EventHandler {
+func newHandler(eventName string, agg string, ctx *Context, properties []interface{}, others *handlerOfShape) spi.EventHandler {
 	pc, callerFile, callerLine, _ := runtime.Caller(4)
 	site := &spi.LogSite{
 		Context: ctx,
@@ -186,7 +189,9 @@ func newHandler(eventName string, agg string, ctx *Context, properties []interfa
 		Line:   callerLine,
 		Sample: properties,
 	}
-	handler := newRootHandler(site, nomalModeOnPanic)
-	handlerCache.Store(eventName, handler)
+	handler := newRootHandler(site, fallbackModeOnPanic)
+	handlerOfShape := newHandlerOfShape(agg, ctx, properties, handler)
+	handlerOfShape.next = others
+	handlerCache.Store(eventName, handlerOfShape)
 	return handler
 }
diff --git a/countlog/root.go b/countlog/root.go
index 1f46859..c051afc 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -2,7 +2,6 @@ package countlog
 
 import (
 	"github.com/v2pro/plz/countlog/spi"
-	"runtime"
 	"fmt"
 	"runtime/debug"
 	"github.com/v2pro/plz/countlog/loglog"
@@ -71,48 +70,9 @@ func (handler *statsAndOutput) LogSite() *spi.LogSite {
 	return handler.site
 }
 
-func nomalModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) {
-	redirector := &redirector{
-		site:            *site,
-	}
-	handlerCache.Store(site.Event, redirector)
-	newSite := *site
-	newSite.File = "unknown"
-	newSite.Line = 0
-	newSite.Sample = event.Properties
-	newRootHandler(&newSite, fallbackModeOnPanic).Handle(event)
-}
-
 func fallbackModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) {
 	loglog.Error(fmt.Errorf("%v", recovered))
 	if spi.MinLevel <= spi.LevelDebug {
 		debug.PrintStack()
 	}
 }
-
-type redirector struct {
-	site spi.LogSite
-}
-
-func (redirector *redirector) Handle(event *spi.Event) {
-	_, callerFile, callerLine, _ := runtime.Caller(3)
-	key := accurateHandlerKey{callerFile, callerLine}
-	handlerObj, found := handlerCache.Load(key)
-	if found {
-		handlerObj.(spi.EventHandler).Handle(event)
-		return
-	}
-	site := redirector.site
-	site.File = callerFile
-	site.Line = callerLine
-	site.Sample = event.Properties
-	handler := newRootHandler(&site, fallbackModeOnPanic)
-	handlerCache.Store(key, handler)
-	handler.Handle(event)
-	return
-}
-
-type accurateHandlerKey struct {
-	File string
-	Line int
-}
diff --git a/countlog/shape.go b/countlog/shape.go
new file mode 100644
index 0000000..2c20550
--- /dev/null
+++ b/countlog/shape.go
@@ -0,0 +1,69 @@
+package countlog
+
+import (
+	"reflect"
+
+	"github.com/v2pro/plz/countlog/spi"
+)
+
+// handlerOfShape is a handler with what it has been built from. It must not handle an event of another shape:
+// the formatters and extractors inside rely on the position and type of every property.
+type handlerOfShape struct {
+	agg           string
+	hasContext    bool
+	properties    []propertyShape
+	ctxProperties []propertyShape
+	handler       spi.EventHandler
+	next          *handlerOfShape // handler of the same event name for another shape
+}
+
+// propertyShape is a key and its type, or the type of a value
+type propertyShape struct {
+	typ  reflect.Type
+	text string
+}
+
+func newHandlerOfShape(agg string, ctx *Context, properties []interface{}, handler spi.EventHandler) *handlerOfShape {
+	return &handlerOfShape{
+		agg:           agg,
+		hasContext:    ctx != nil,
+		properties:    shapesOf(properties),
+		ctxProperties: shapesOf(ctx.properties()),
+		handler:       handler,
+	}
+}
+
+func (shape *handlerOfShape) matches(agg string, ctx *Context, properties []interface{}) bool {
+	return shape.agg == agg && shape.hasContext == (ctx != nil) &&
+		shapesMatch(shape.properties, properties) &&
+		shapesMatch(shape.ctxProperties, ctx.properties())
+}
+
+func shapesOf(properties []interface{}) []propertyShape {
+	shapes := make([]propertyShape, len(properties))
+	for i := range properties {
+		shapes[i] = shapeOf(properties, i)
+	}
+	return shapes
+}
+
+func shapesMatch(shapes []propertyShape, properties []interface{}) bool {
+	if len(shapes) != len(properties) {
+		return false
+	}
+	for i := range properties {
+		if shapes[i] != shapeOf(properties, i) {
+			return false
+		}
+	}
+	return true
+}
+
+func shapeOf(properties []interface{}, i int) propertyShape {
+	shape := propertyShape{typ: reflect.TypeOf(properties[i])}
+	// the values of agg and dim decide how the event is aggregated
+	if i%2 == 0 || properties[i-1] == "agg" || properties[i-1] == "dim" {
+		shape.text, _ = properties[i].(string)
+	}
+	return shape
+}
-- 
2.43.0


From ed061bbed9c832ca12bb22d0706e551befcbbf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:45 +0000
Subject: [PATCH 16/46] fix: aggregate an event even if writing it panics

---
 countlog/root.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/countlog/root.go b/countlog/root.go
index c051afc..27dc00c 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -20,9 +20,8 @@ func newRootHandler(site *spi.LogSite, onPanic panicHandler) spi.EventHandler {
 	}
 	return &statsAndOutput{
 		site:          site,
-		statsHandler:  statsHandler,
-		outputHandler: EventWriter.HandlerOf(site),
-		onPanic:       onPanic,
+		statsHandler:  &oneHandler{site, statsHandler, onPanic},
+		outputHandler: &oneHandler{site, EventWriter.HandlerOf(site), onPanic},
 	}
 }
 
@@ -50,16 +49,9 @@ type statsAndOutput struct {
 	site          *spi.LogSite
 	statsHandler  spi.EventHandler
 	outputHandler spi.EventHandler
-	onPanic       panicHandler
 }
 
 func (handler *statsAndOutput) Handle(event *spi.Event) {
-	defer func() {
-		recovered := recover()
-		if recovered != nil {
-			handler.onPanic(recovered, event, handler.site)
-		}
-	}()
 	if event.Level >= spi.MinCallLevel {
 		handler.outputHandler.Handle(event)
 	}
-- 
2.43.0


From e3655a381199fc4f670ea533afec39bed1d117ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:57 +0000
Subject: [PATCH 17/46] fix: do not let logging panic in the application

---
 countlog/countlog.go | 33 ++++++++++++++++++++++-----------
 countlog/root.go     | 12 ++++++++++++
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 1193efb..2d7f6ea 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -141,15 +141,26 @@ func log(level int, eventName string, agg string, ctx *Context, err error, prope
 	}
 	handler.Handle(event)
 	if event.Error != nil {
-		formatter := msgfmt.FormatterOf(eventName, properties)
-		errMsg := formatter.Format(nil, properties)
-		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, event.Error.Error()...)
-		event.Error = errors.New(string(errMsg))
+		event.Error = wrapError(eventName, event.Error, properties)
 	}
 	return event.Error
 }
 
+func wrapError(eventName string, err error, properties []interface{}) (wrapped error) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			// the properties or err can not be formatted
+			wrapped = err
+		}
+	}()
+	formatter := msgfmt.FormatterOf(eventName, properties)
+	errMsg := formatter.Format(nil, properties)
+	errMsg = append(errMsg, ": "...)
+	errMsg = append(errMsg, err.Error()...)
+	return errors.New(string(errMsg))
+}
+
 func addMemo(level int, eventName string, agg string, ctx *Context, err error, properties []interface{}) {
 	event := &spi.Event{
 		Level:      level,
@@ -159,11 +170,7 @@ func addMemo(level int, eventName string, agg string, ctx *Context, err error, p
 		Properties: properties,
 	}
 	if event.Error != nil {
-		formatter := msgfmt.FormatterOf(eventName, properties)
-		errMsg := formatter.Format(nil, properties)
-		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, event.Error.Error()...)
-		event.Error = errors.New(string(errMsg))
+		event.Error = wrapError(eventName, event.Error, properties)
 	}
 }
 
@@ -189,7 +196,11 @@ func newHandler(eventName string, agg string, ctx *Context, properties []interfa
 		Line:   callerLine,
 		Sample: properties,
 	}
-	handler := newRootHandler(site, fallbackModeOnPanic)
+	handler := tryNewRootHandler(site, fallbackModeOnPanic)
+	if handler == nil {
+		// already reported
+		return &spi.DummyEventHandler{Site: site}
+	}
 	handlerOfShape := newHandlerOfShape(agg, ctx, properties, handler)
 	handlerOfShape.next = others
 	handlerCache.Store(eventName, handlerOfShape)
diff --git a/countlog/root.go b/countlog/root.go
index 27dc00c..70e1798 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -9,6 +9,18 @@ import (
 
 type panicHandler func(recovered interface{}, event *spi.Event, site *spi.LogSite)
 
+// tryNewRootHandler returns nil if the handler can not be created, for example the keys are not string
+func tryNewRootHandler(site *spi.LogSite, onPanic panicHandler) (handler spi.EventHandler) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			onPanic(recovered, nil, site)
+			handler = nil
+		}
+	}()
+	return newRootHandler(site, onPanic)
+}
+
 func newRootHandler(site *spi.LogSite, onPanic panicHandler) spi.EventHandler {
 	statsHandler := EventAggregator.HandlerOf(site)
 	if statsHandler == nil {
-- 
2.43.0


From 7091aa0d6bde8195f1f37f11bee2e2575aa40487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:22 +0000
Subject: [PATCH 18/46] fix: always write a call that failed

---
 countlog/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/root.go b/countlog/root.go
index 70e1798..1c9b0c7 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -64,7 +64,7 @@ type statsAndOutput struct {
 }
 
 func (handler *statsAndOutput) Handle(event *spi.Event) {
-	if event.Level >= spi.MinCallLevel {
+	if event.Level >= spi.MinCallLevel || event.Error != nil {
 		handler.outputHandler.Handle(event)
 	}
 	handler.statsHandler.Handle(event)
-- 
2.43.0


From 5875c15889ba6c84ce3654dacad18204d5b80231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:34 +0000
Subject: [PATCH 19/46] fix: show the level in human readable logs

---
 countlog/spi/color.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/countlog/spi/color.go b/countlog/spi/color.go
index 9fed7f8..a655051 100644
--- a/countlog/spi/color.go
+++ b/countlog/spi/color.go
@@ -1,5 +1,7 @@
 package spi
 
+import "fmt"
+
 var coloredNames = map[int]string{}
 
 func init() {
@@ -15,9 +17,7 @@ func init() {
 		LevelFatal,
 	}
 	for _, level := range levels {
-		coloredNames[level] = ColoredLevelName(level)
-		//coloredNames[level] = msgfmt.Sprintf("\x1b[{color};1m[{level}]\x1b[0m ",
-		//	"color", getColor(level), "level", LevelName(level))
+		coloredNames[level] = fmt.Sprintf("\x1b[%d;1m[%s]\x1b[0m ", getColor(level), LevelName(level))
 	}
 }
 
-- 
2.43.0


From d93f01813e99d5de42a77a28d45ea8aad9f90f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:14 +0000
Subject: [PATCH 20/46] fix: export counters every second, not only once

---
 countlog/stats/window.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index e1b43b9..ad588b3 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -44,6 +44,7 @@ func (window *Window) exportEverySecond(ctx context.Context) {
 		select {
 		case <-timer.C:
 			window.Export(time.Now())
+			timer.Reset(time.Second)
 		case <-ctx.Done():
 			return
 		}
-- 
2.43.0


From db3adaa3915553cb540a262a2254a4bb13cf091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:14 +0000
Subject: [PATCH 21/46] fix: name the event in collected points

---
 countlog/stats/stats.go  | 2 +-
 countlog/stats/window.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index f357b30..a86e35a 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -44,7 +44,7 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 		return &spi.DummyEventHandler{Site: site}
 	}
 	extractor, dimensionElemCount := newDimensionExtractor(site)
-	window := newWindow(aggregator.executor, aggregator.collector, dimensionElemCount)
+	window := newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount)
 	switch agg {
 	case "counter":
 		return &countEvent{
diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index ad588b3..e5400ec 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -23,9 +23,10 @@ type windowShard struct {
 	lock *sync.Mutex
 }
 
-func newWindow(executor Executor, collector Collector, dimensionElemCount int) *Window {
+func newWindow(executor Executor, collector Collector, event string, dimensionElemCount int) *Window {
 	window := &Window{
 		collector:          collector,
+		event:              event,
 		dimensionElemCount: dimensionElemCount,
 	}
 	for i := 0; i < 16; i++ {
-- 
2.43.0


From aa2bee891793fc471fb0beae38c2dec5be5c808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:14 +0000
Subject: [PATCH 22/46] fix: unlock the counters even if the dimension is not
 valid

---
 countlog/stats/counter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/stats/counter.go b/countlog/stats/counter.go
index 9da8dc3..a2de0a5 100644
--- a/countlog/stats/counter.go
+++ b/countlog/stats/counter.go
@@ -11,9 +11,9 @@ type countEvent struct {
 func (state *countEvent) Handle(event *spi.Event) {
 	lock, dimensions := state.Window.Mutate()
 	lock.Lock()
+	defer lock.Unlock()
 	counter := state.extractor.Extract(event, dimensions, NewCounterMonoid)
 	*(counter.(*CounterMonoid)) += CounterMonoid(1)
-	lock.Unlock()
 }
 
 func (state *countEvent) GetWindow() *Window {
-- 
2.43.0


From 06579b65be407d7c460d50876602e863125e7559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:14 +0000
Subject: [PATCH 23/46] fix: do not start an exporter for events that are not
 aggregated

---
 countlog/stats/stats.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index a86e35a..3ddb877 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -43,10 +43,10 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 		// disable aggregation if collector not set
 		return &spi.DummyEventHandler{Site: site}
 	}
-	extractor, dimensionElemCount := newDimensionExtractor(site)
-	window := newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount)
 	switch agg {
 	case "counter":
+		extractor, dimensionElemCount := newDimensionExtractor(site)
+		window := newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount)
 		return &countEvent{
 			Window:    window,
 			extractor: extractor,
-- 
2.43.0


From e0d70cc24aaebc98645fbf261eb68e115bc35a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:14 +0000
Subject: [PATCH 24/46] fix: do not hide dimensions from the garbage collector

---
 countlog/stats/window.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index e5400ec..7412d3a 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -208,7 +208,7 @@ func extractDimension(
 	}
 	dimensionInterface := sampleInterface
 	dimensionInterface.word = unsafe.Pointer(&dimension[0])
-	dimensionObj := castEmptyInterface(uintptr(unsafe.Pointer(&dimensionInterface)))
+	dimensionObj := *(*interface{})(unsafe.Pointer(&dimensionInterface))
 	elem := monoid[dimensionObj]
 	if elem == nil {
 		elem = createElem()
@@ -227,10 +227,6 @@ func copyDimension(dimensionInterface emptyInterface, dimension []string) interf
 	return *(*interface{})(unsafe.Pointer(&dimensionInterface))
 }
 
-func castEmptyInterface(ptr uintptr) interface{} {
-	return *(*interface{})(unsafe.Pointer(ptr))
-}
-
 // emptyInterface is the header for an interface{} value.
 type emptyInterface struct {
 	typ  unsafe.Pointer
-- 
2.43.0


From 0de41fa44089623466ea8c0a5264af0c4322c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 25/46] fix: do not truncate the log file when it cannot be
 examined

openNew took any error of Stat for the absence of the file and then opened
it with O_TRUNC, wiping out the records in it.
---
 countlog/output/lumberjack/lumberjack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 3a8623e..e2908a8 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -216,6 +216,10 @@ func (l *Logger) openNew() error {
 	name := l.filename()
 	mode := os.FileMode(0644)
 	info, err := os_Stat(name)
+	if err != nil && !os.IsNotExist(err) {
+		// the file may well exist: it must not be truncated below
+		return fmt.Errorf("error getting log file info: %s", err)
+	}
 	if err == nil {
 		// Copy the mode off the old logfile.
 		mode = info.Mode()
-- 
2.43.0


From 29365bfedcde5f8c6ca5b794dc873fd153b15b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 26/46] fix: data race on BackupTimeFormat

The writer and the mill goroutine both stored the default into the
configuration without synchronisation.
---
 countlog/output/lumberjack/lumberjack.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index e2908a8..e57cba4 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -224,10 +224,7 @@ func (l *Logger) openNew() error {
 		// Copy the mode off the old logfile.
 		mode = info.Mode()
 		// move the existing file
-		if l.BackupTimeFormat == "" {
-			l.BackupTimeFormat = defaultBackupTimeFormat
-		}
-		newname := backupName(name, l.LocalTime, l.BackupTimeFormat)
+		newname := backupName(name, l.LocalTime, l.backupTimeFormat())
 		if err := os.Rename(name, newname); err != nil {
 			return fmt.Errorf("can't rename log file: %s", err)
 		}
@@ -447,10 +444,15 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
+	return time.Parse(l.backupTimeFormat(), ts)
+}
+
+// backupTimeFormat returns the format of the timestamp in the names of backups.
+func (l *Logger) backupTimeFormat() string {
 	if l.BackupTimeFormat == "" {
-		l.BackupTimeFormat = defaultBackupTimeFormat
+		return defaultBackupTimeFormat
 	}
-	return time.Parse(l.BackupTimeFormat, ts)
+	return l.BackupTimeFormat
 }
 
 // max returns the maximum size in bytes of log files before rolling.
-- 
2.43.0


From b827e94301bb38b8cac133515284b7b0e25897f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 27/46] fix: clean up after a rotation caused by a failing open

openExistingOrNew set the log file aside without telling the mill, so the
surplus or uncompressed backup stayed until the next rotation.
---
 countlog/output/lumberjack/lumberjack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index e57cba4..5b985bb 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -287,7 +287,7 @@ func (l *Logger) openExistingOrNew(writeLen int) error {
 	if err != nil {
 		// if we fail to open the old log file for some reason, just ignore
 		// it and open a new log file.
-		return l.openNew()
+		return l.rotate()
 	}
 	l.file = file
 	l.size = info.Size()
-- 
2.43.0


From 51262cc0ed27325bb4a44a85cbbf7753b65c0f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 28/46] fix: local timestamps of backups are in local time

With LocalTime, names carry local time but were parsed as UTC, so MaxAge
removed backups hours too early or too late.
---
 countlog/output/lumberjack/lumberjack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 5b985bb..a62fc85 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -444,6 +444,9 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
+	if l.LocalTime {
+		return time.ParseInLocation(l.backupTimeFormat(), ts, time.Local)
+	}
 	return time.Parse(l.backupTimeFormat(), ts)
 }
 
-- 
2.43.0


From aa4c0fe47abe98917aa53b8fe72e9aa637c57043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 29/46] fix: a large MaxAge must not remove every backup

More than 106751 days overflowed time.Duration and put the cutoff in the
future.
---
 countlog/output/lumberjack/lumberjack.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index a62fc85..0e2568f 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -340,8 +340,7 @@ func (l *Logger) millRunOnce() error {
 		files = remaining
 	}
 	if l.MaxAge > 0 {
-		diff := time.Duration(int64(24*time.Hour) * int64(l.MaxAge))
-		cutoff := currentTime().Add(-1 * diff)
+		cutoff := currentTime().UTC().AddDate(0, 0, -l.MaxAge)
 
 		var remaining []logInfo
 		for _, f := range files {
-- 
2.43.0


From ce76823e0d188cef36496955e5b6af65a111d2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 30/46] fix: one mill at a time

The mill goroutine outlives Close. When a new Logger takes over the files,
both compressed the same backup into the same file, and the slower one
removed the only copy left when it did not find the source.
---
 countlog/output/lumberjack/lumberjack.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 0e2568f..d4c3b06 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -128,6 +128,10 @@ var (
 	// variable so tests can mock it out and not need to write megabytes of data
 	// to disk.
 	megabyte = 1024 * 1024
+
+	// millMu keeps the mill of a closed Logger and that of its successor on
+	// the same files from compressing one backup at the same time.
+	millMu sync.Mutex
 )
 
 // Write implements io.Writer.  If a write would cause the log file to be larger
@@ -312,6 +316,9 @@ func (l *Logger) millRunOnce() error {
 		return nil
 	}
 
+	millMu.Lock()
+	defer millMu.Unlock()
+
 	files, err := l.oldLogFiles()
 	if err != nil {
 		return err
-- 
2.43.0


From b79984ad052df0987a85f033833e7da926f8eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:26 +0000
Subject: [PATCH 31/46] fix: a backup never replaces another

Rotations within one tick of the timestamp (one millisecond by default, up
to a day with a coarser BackupTimeFormat), or after the clock was set back,
chose the name of an existing backup and destroyed it, or later its
compressed copy.
---
 countlog/output/lumberjack/lumberjack.go | 68 +++++++++++++++++++++++-
 1 file changed, 66 insertions(+), 2 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index d4c3b06..89e4e2e 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -30,6 +30,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 	"sync"
 	"time"
@@ -228,7 +229,10 @@ func (l *Logger) openNew() error {
 		// Copy the mode off the old logfile.
 		mode = info.Mode()
 		// move the existing file
-		newname := backupName(name, l.LocalTime, l.backupTimeFormat())
+		newname, err := l.newBackupName(name)
+		if err != nil {
+			return fmt.Errorf("can't name the backup of the log file: %s", err)
+		}
 		if err := os.Rename(name, newname); err != nil {
 			return fmt.Errorf("can't rename log file: %s", err)
 		}
@@ -268,6 +272,45 @@ func backupName(name string, local bool, backupTimeFormat string) string {
 	return filepath.Join(dir, fmt.Sprintf("%s-%s%s", prefix, timestamp, ext))
 }
 
+// newBackupName returns the name to move the log file to. Backups made within
+// one tick of the timestamp are told apart by an increasing number after it,
+// so that none replaces another.
+func (l *Logger) newBackupName(name string) (string, error) {
+	newname := backupName(name, l.LocalTime, l.backupTimeFormat())
+	dir, err := os.Open(l.dir())
+	if err != nil {
+		return "", err
+	}
+	defer dir.Close()
+	files, err := dir.Readdirnames(-1)
+	if err != nil {
+		return "", err
+	}
+	_, ext := l.prefixAndExt()
+	stem := newname[:len(newname)-len(ext)]
+	next := 0
+	for _, f := range files {
+		f = filepath.Join(l.dir(), strings.TrimSuffix(f, compressSuffix))
+		if f == newname || f+compressSuffix == newname {
+			if next == 0 {
+				next = 1
+			}
+			continue
+		}
+		if !strings.HasPrefix(f, stem+"-") {
+			continue
+		}
+		n, err := strconv.Atoi(strings.TrimSuffix(f[len(stem)+1:], ext))
+		if err == nil && n >= next {
+			next = n + 1
+		}
+	}
+	if next > 0 {
+		newname = fmt.Sprintf("%s-%d%s", stem, next, ext)
+	}
+	return newname, nil
+}
+
 // openExistingOrNew opens the logfile if it exists and if the current write
 // would not put it over MaxSize.  If there is no such file or the write would
 // put it over the MaxSize, a new file is created.
@@ -450,6 +493,18 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
+	t, err := l.parseTime(ts)
+	if i := strings.LastIndexByte(ts, '-'); err != nil && i >= 0 {
+		// the number of a further backup of the same time
+		if n, errNum := strconv.Atoi(ts[i+1:]); errNum == nil && strconv.Itoa(n) == ts[i+1:] && n > 0 {
+			return l.parseTime(ts[:i])
+		}
+	}
+	return t, err
+}
+
+// parseTime parses the timestamp in the name of a backup.
+func (l *Logger) parseTime(ts string) (time.Time, error) {
 	if l.LocalTime {
 		return time.ParseInLocation(l.backupTimeFormat(), ts, time.Local)
 	}
@@ -552,7 +607,16 @@ type logInfo struct {
 type byFormatTime []logInfo
 
 func (b byFormatTime) Less(i, j int) bool {
-	return b[i].timestamp.After(b[j].timestamp)
+	if !b[i].timestamp.Equal(b[j].timestamp) {
+		return b[i].timestamp.After(b[j].timestamp)
+	}
+	// same time: the higher number is the newer one
+	ni := strings.TrimSuffix(b[i].Name(), compressSuffix)
+	nj := strings.TrimSuffix(b[j].Name(), compressSuffix)
+	if len(ni) != len(nj) {
+		return len(ni) > len(nj)
+	}
+	return ni > nj
 }
 
 func (b byFormatTime) Swap(i, j int) {
-- 
2.43.0


From 7a25793ec9315b855dc09722419376851ec142d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:04 +0000
Subject: [PATCH 32/46] fix: do not lose bytes next to escaped ones

---
 msgfmt/formatter_bytes.go       | 17 ++++++-----------
 msgfmt/jsonfmt/encoder_bytes.go | 18 ++++++------------
 msgfmt/jsonfmt/encoder_str.go   | 17 +++++------------
 3 files changed, 17 insertions(+), 35 deletions(-)

diff --git a/msgfmt/formatter_bytes.go b/msgfmt/formatter_bytes.go
index 646e5c8..1e4e395 100644
--- a/msgfmt/formatter_bytes.go
+++ b/msgfmt/formatter_bytes.go
@@ -117,19 +117,13 @@ var hex = "0123456789abcdef"
 
 func writeBytes(space []byte, s []byte) []byte {
 	// write string, the fast path, without utf8 and escape support
-	var i int
-	var c byte
-	for i, c = range s {
-		if c < utf8.RuneSelf && safeSet[c] {
-			space = append(space, c)
-		} else {
-			break
+	for i, c := range s {
+		if c >= utf8.RuneSelf || !safeSet[c] {
+			return writeBytesSlowPath(space, s[i:])
 		}
+		space = append(space, c)
 	}
-	if i == len(s)-1 {
-		return space
-	}
-	return writeBytesSlowPath(space, s[i:])
+	return space
 }
 
 func writeBytesSlowPath(space []byte, s []byte) []byte {
@@ -139,6 +133,7 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			space = append(space, s[start:i]...)
 			space = append(space, '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
diff --git a/msgfmt/jsonfmt/encoder_bytes.go b/msgfmt/jsonfmt/encoder_bytes.go
index 4c81ece..58817e2 100644
--- a/msgfmt/jsonfmt/encoder_bytes.go
+++ b/msgfmt/jsonfmt/encoder_bytes.go
@@ -16,20 +16,13 @@ func (encoder *bytesEncoder) Encode(ctx context.Context, space []byte, ptr unsaf
 func WriteBytes(space []byte, s []byte) []byte {
 	space = append(space, '"')
 	// write string, the fast path, without utf8 and escape support
-	var i int
-	var c byte
-	for i, c = range s {
-		if c < utf8.RuneSelf && safeSet[c] {
-			space = append(space, c)
-		} else {
-			break
+	for i, c := range s {
+		if c >= utf8.RuneSelf || !safeSet[c] {
+			return writeBytesSlowPath(space, s[i:])
 		}
+		space = append(space, c)
 	}
-	if i == len(s)-1 {
-		space = append(space, '"')
-		return space
-	}
-	return writeBytesSlowPath(space, s[i:])
+	return append(space, '"')
 }
 
 func writeBytesSlowPath(space []byte, s []byte) []byte {
@@ -39,6 +32,7 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			space = append(space, s[start:i]...)
 			space = append(space, '\\', '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
diff --git a/msgfmt/jsonfmt/encoder_str.go b/msgfmt/jsonfmt/encoder_str.go
index effd7cc..b478b8a 100644
--- a/msgfmt/jsonfmt/encoder_str.go
+++ b/msgfmt/jsonfmt/encoder_str.go
@@ -123,20 +123,13 @@ func (encoder *stringEncoder) Encode(ctx context.Context, space []byte, ptr unsa
 func WriteString(space []byte, str string) []byte {
 	space = append(space, '"')
 	// write string, the fast path, without utf8 and escape support
-	var i int
-	var c byte
-	for i, c = range []byte(str) {
-		if c > 31 && c != '"' && c != '\\' {
-			space = append(space, c)
-		} else {
-			break
+	for i, c := range []byte(str) {
+		if c <= 31 || c == '"' || c == '\\' {
+			return writeStringSlowPath(space, []byte(str[i:]))
 		}
+		space = append(space, c)
 	}
-	if i == len(str)-1 {
-		space = append(space, '"')
-		return space
-	}
-	return writeStringSlowPath(space, []byte(str[i:]))
+	return append(space, '"')
 }
 
 func writeStringSlowPath(space []byte, s []byte) []byte {
-- 
2.43.0


From 6ee2e829a95e5792fe5f261e5fd8dc17ee433727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:04 +0000
Subject: [PATCH 33/46] fix: write large unsigned integers in full

---
 msgfmt/jsonfmt/encoder_int.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder_int.go b/msgfmt/jsonfmt/encoder_int.go
index 654cc16..816400f 100644
--- a/msgfmt/jsonfmt/encoder_int.go
+++ b/msgfmt/jsonfmt/encoder_int.go
@@ -140,7 +140,7 @@ func WriteUint32(space []byte, val uint32) []byte {
 	} else {
 		r3 := q2 - q3*1000
 		space = append(space, byte(q3 + '0'))
-		return writeBuf(space, digits[r3])
+		space = writeBuf(space, digits[r3])
 	}
 	space = writeBuf(space, digits[r2])
 	return writeBuf(space, digits[r1])
@@ -201,7 +201,7 @@ func WriteUint64(space []byte, val uint64) []byte {
 	if q6 == 0 {
 		space = writeFirstBuf(space, digits[q5])
 	} else {
-		space = append(space, byte(q6 + '0'))
+		space = writeFirstBuf(space, digits[q6])
 		r6 := q5 - q6*1000
 		space = writeBuf(space, digits[r6])
 	}
-- 
2.43.0


From 8deacef63d98f33236f901e192f3d49672a3d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:04 +0000
Subject: [PATCH 34/46] fix: do not panic on a nil error or marshaler inside
 another value

---
 msgfmt/jsonfmt/encoder_error.go          | 3 +++
 msgfmt/jsonfmt/encoder_json_marshaler.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/msgfmt/jsonfmt/encoder_error.go b/msgfmt/jsonfmt/encoder_error.go
index 8cd46c2..32a84ca 100644
--- a/msgfmt/jsonfmt/encoder_error.go
+++ b/msgfmt/jsonfmt/encoder_error.go
@@ -12,6 +12,9 @@ type errorEncoder struct {
 
 func (encoder *errorEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
+	if obj == nil {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	space = append(space, '"')
 	space = append(space, obj.(error).Error()...)
 	space = append(space, '"')
diff --git a/msgfmt/jsonfmt/encoder_json_marshaler.go b/msgfmt/jsonfmt/encoder_json_marshaler.go
index fc0cd76..2657a62 100644
--- a/msgfmt/jsonfmt/encoder_json_marshaler.go
+++ b/msgfmt/jsonfmt/encoder_json_marshaler.go
@@ -13,6 +13,9 @@ type jsonMarshalerEncoder struct {
 
 func (encoder *jsonMarshalerEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
+	if obj == nil {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	buf, err := obj.(json.Marshaler).MarshalJSON()
 	if err != nil {
 		space = append(space, '"')
-- 
2.43.0


From c0ccdd069cd0eb0e5c367bd039ac36051458a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:04 +0000
Subject: [PATCH 35/46] fix: write NaN and infinities as such

---
 msgfmt/jsonfmt/encoder_float.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msgfmt/jsonfmt/encoder_float.go b/msgfmt/jsonfmt/encoder_float.go
index 572953c..bca08ed 100644
--- a/msgfmt/jsonfmt/encoder_float.go
+++ b/msgfmt/jsonfmt/encoder_float.go
@@ -41,6 +41,9 @@ func WriteFloat64(space []byte, val float64) []byte {
 }
 // WriteFloat64Lossy write float64 to stream with ONLY 6 digits precision although much much faster
 func WriteFloat64Lossy(space []byte, val float64) []byte {
+	if math.IsNaN(val) || math.IsInf(val, 0) {
+		return WriteFloat64(space, val)
+	}
 	if val < 0 {
 		space = append(space, '-')
 		val = -val
@@ -82,6 +85,9 @@ func WriteFloat32(space []byte, val float32) []byte {
 
 // WriteFloat32Lossy write float32 to stream with ONLY 6 digits precision although much much faster
 func WriteFloat32Lossy(space []byte, val float32) []byte {
+	if math.IsNaN(float64(val)) || math.IsInf(float64(val), 0) {
+		return WriteFloat32(space, val)
+	}
 	if val < 0 {
 		space = append(space, '-')
 		val = -val
-- 
2.43.0


From 440c7ffa5907a9e6e36425922b05777811781714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:50 +0000
Subject: [PATCH 36/46] fix: log only the stack trace, not the whole buffer for
 it

---
 countlog/countlog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 2d7f6ea..c4052c2 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -117,7 +117,7 @@ func LogPanic(recovered interface{}, properties ...interface{}) interface{} {
 		return nil
 	}
 	buf := make([]byte, 1<<16)
-	runtime.Stack(buf, false)
+	buf = buf[:runtime.Stack(buf, false)]
 	if len(properties) > 0 {
 		// do not write into the slice of the caller
 		properties = append(properties[:len(properties):len(properties)], "err", recovered, "stacktrace", string(buf))
-- 
2.43.0


From 5fca71718da334ae3f503545c8af209b24588e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:11 +0000
Subject: [PATCH 37/46] fix: do not log while holding the executor's mutex

A slow progress hook blocked Go and finishing handlers, and a hook that
started a handler on the same executor deadlocked.
---
 concurrent/unbounded_executor.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/concurrent/unbounded_executor.go b/concurrent/unbounded_executor.go
index 70a1cf0..b903345 100644
--- a/concurrent/unbounded_executor.go
+++ b/concurrent/unbounded_executor.go
@@ -85,15 +85,24 @@ func (executor *UnboundedExecutor) StopAndWait(ctx context.Context) {
 }
 
 func (executor *UnboundedExecutor) checkGoroutines() bool {
+	startFrom, count := executor.findActive()
+	if count == 0 {
+		return true
+	}
+	// not under the mutex: the hook might be slow or start a goroutine itself
+	LogInfo("event!unbounded_executor.still waiting goroutines to quit",
+		"startFrom", startFrom,
+		"count", count)
+	return false
+}
+
+func (executor *UnboundedExecutor) findActive() (string, int) {
 	executor.activeGoroutinesMutex.Lock()
 	defer executor.activeGoroutinesMutex.Unlock()
 	for startFrom, count := range executor.activeGoroutines {
 		if count > 0 {
-			LogInfo("event!unbounded_executor.still waiting goroutines to quit",
-				"startFrom", startFrom,
-				"count", count)
-			return false
+			return startFrom, count
 		}
 	}
-	return true
+	return "", 0
 }
-- 
2.43.0


From 741da410fd70d4497a630cf46aba8f7be7fe7e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:11 +0000
Subject: [PATCH 38/46] fix: a panicking writer must not end the async writer

The goroutine taking messages from the queue died: messages were lost,
producers blocked for ever and nothing was reported.
---
 countlog/output/async/async.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 372860f..4e657fa 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -83,10 +83,7 @@ func (writer *blockingQueueWriter) asyncWrite(ctx context.Context) {
 					// time is up
 					return
 				case buf := <-writer.queue:
-					_, err := writer.writer.Write(buf)
-					if err != nil {
-						loglog.Error(err)
-					}
+					writer.writeOut(buf)
 				default:
 					// all written out
 					return
@@ -94,11 +91,22 @@ func (writer *blockingQueueWriter) asyncWrite(ctx context.Context) {
 			}
 			return
 		case buf := <-writer.queue:
-			_, err := writer.writer.Write(buf)
-			if err != nil {
-				loglog.Error(err)
-			}
+			writer.writeOut(buf)
+		}
+	}
+}
+
+// writeOut must not panic, otherwise nobody takes messages from the queue any more
+func (writer *blockingQueueWriter) writeOut(buf []byte) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			loglog.Error(fmt.Errorf("countlog async writer panicked: %v", recovered))
 		}
+	}()
+	_, err := writer.writer.Write(buf)
+	if err != nil {
+		loglog.Error(err)
 	}
 }
 
-- 
2.43.0


From f97102f4f11111e90bc80c4f1e0d6c88d63e393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:11 +0000
Subject: [PATCH 39/46] fix: report every uint64 overflow

The multiplication may wrap around to a larger value.
---
 parse/read/int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/read/int.go b/parse/read/int.go
index 2d88c84..1a336a5 100644
--- a/parse/read/int.go
+++ b/parse/read/int.go
@@ -79,7 +79,7 @@ func Uint64(src *parse.Source) uint64 {
 			}
 			if value > uint64SafeToMultiple10 {
 				value2 := (value << 3) + (value << 1) + uint64(ind)
-				if value2 < value {
+				if value > math.MaxUint64/10 || value2 < value {
 					src.ReportError(errors.New("uint64: overflow"))
 					return 0
 				}
-- 
2.43.0


From 83d2e0245d6aca17c1b6a1927727445aa31da3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:34 +0000
Subject: [PATCH 40/46] fix: render interface map keys by the value they hold

---
 msgfmt/jsonfmt/encoder.go     |  2 +-
 msgfmt/jsonfmt/encoder_map.go | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 44f87e8..21cef89 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -210,7 +210,7 @@ func _encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) E
 		return &mapStringKeyEncoder{keyEncoder}
 	}
 	if keyType.Kind() == reflect.Interface {
-		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix}
+		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix, keyType: keyType}
 	}
 	return &mapNumberKeyEncoder{keyEncoder}
 }
diff --git a/msgfmt/jsonfmt/encoder_map.go b/msgfmt/jsonfmt/encoder_map.go
index 58a49a2..106b71f 100644
--- a/msgfmt/jsonfmt/encoder_map.go
+++ b/msgfmt/jsonfmt/encoder_map.go
@@ -52,12 +52,20 @@ func (encoder *mapStringKeyEncoder) Encode(ctx context.Context, space []byte, pt
 }
 
 type mapInterfaceKeyEncoder struct {
-	cfg    *frozenConfig
-	prefix string
+	cfg     *frozenConfig
+	prefix  string
+	keyType reflect2.Type
 }
 
 func (encoder *mapInterfaceKeyEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
-	keyObj := *(*interface{})(ptr)
-	keyEncoder := encoderOfMapKey(encoder.cfg, encoder.prefix, reflect2.TypeOf(keyObj))
+	keyObj := encoder.keyType.UnsafeIndirect(ptr)
+	if keyObj == nil {
+		return append(space, `"null":`...)
+	}
+	keyType := reflect2.TypeOf(keyObj)
+	keyEncoder := encoderOfMapKey(encoder.cfg, encoder.prefix, keyType)
+	if keyType.LikePtr() {
+		keyEncoder = &onePtrInterfaceEncoder{keyEncoder}
+	}
 	return keyEncoder.Encode(ctx, space, reflect2.PtrOf(keyObj))
 }
-- 
2.43.0


From 4ead8dfc74d3342f5b2798520b2da671b75b85dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:45 +0000
Subject: [PATCH 41/46] fix: escape the text of errors inside JSON

---
 msgfmt/jsonfmt/encoder_error.go          | 5 +----
 msgfmt/jsonfmt/encoder_json_marshaler.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder_error.go b/msgfmt/jsonfmt/encoder_error.go
index 32a84ca..c4bfc98 100644
--- a/msgfmt/jsonfmt/encoder_error.go
+++ b/msgfmt/jsonfmt/encoder_error.go
@@ -15,8 +15,5 @@ func (encoder *errorEncoder) Encode(ctx context.Context, space []byte, ptr unsaf
 	if obj == nil {
 		return append(space, 'n', 'u', 'l', 'l')
 	}
-	space = append(space, '"')
-	space = append(space, obj.(error).Error()...)
-	space = append(space, '"')
-	return space
+	return WriteString(space, obj.(error).Error())
 }
diff --git a/msgfmt/jsonfmt/encoder_json_marshaler.go b/msgfmt/jsonfmt/encoder_json_marshaler.go
index 2657a62..0b424c2 100644
--- a/msgfmt/jsonfmt/encoder_json_marshaler.go
+++ b/msgfmt/jsonfmt/encoder_json_marshaler.go
@@ -18,10 +18,7 @@ func (encoder *jsonMarshalerEncoder) Encode(ctx context.Context, space []byte, p
 	}
 	buf, err := obj.(json.Marshaler).MarshalJSON()
 	if err != nil {
-		space = append(space, '"')
-		space = append(space, err.Error()...)
-		space = append(space, '"')
-		return space
+		return WriteString(space, err.Error())
 	}
 	space = append(space, buf...)
 	return space
-- 
2.43.0


From ba4c1e7f25a6ca81ef1bb2af1915a26dbdca0507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:51 +0000
Subject: [PATCH 42/46] fix: do not overflow the stack on recursive types

---
 msgfmt/jsonfmt/encoder.go | 54 ++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 21cef89..c14f915 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -71,7 +71,7 @@ func (cfg *frozenConfig) EncoderOf(valType reflect2.Type) Encoder {
 	if found {
 		return encoderObj.(Encoder)
 	}
-	encoder := encoderOf(cfg, "", valType)
+	encoder := encoderOf(cfg, building{}, "", valType)
 	if valType.LikePtr() {
 		encoder = &onePtrInterfaceEncoder{encoder}
 	}
@@ -85,7 +85,7 @@ func encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) En
 	if found {
 		return encoderObj.(Encoder)
 	}
-	encoder := _encoderOfMapKey(cfg, prefix, keyType)
+	encoder := _encoderOfMapKey(cfg, building{}, prefix, keyType)
 	cfg.mapKeyEncoderCache.Store(cacheKey, encoder)
 	return encoder
 }
@@ -103,7 +103,31 @@ func MarshalToString(obj interface{}) string {
 	return string(encoder.Encode(nil, nil, reflect2.PtrOf(obj)))
 }
 
-func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder {
+// building holds the types whose encoders are under construction
+type building map[uintptr]*recursiveEncoder
+
+// recursiveEncoder stands for the encoder of a type inside of that encoder
+type recursiveEncoder struct {
+	encoder Encoder
+}
+
+func (encoder *recursiveEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	return encoder.encoder.Encode(ctx, space, ptr)
+}
+
+func encoderOf(cfg *frozenConfig, parents building, prefix string, valType reflect2.Type) Encoder {
+	typeId := valType.RType()
+	if parent, found := parents[typeId]; found {
+		return parent
+	}
+	self := &recursiveEncoder{}
+	parents[typeId] = self
+	self.encoder = buildEncoder(cfg, parents, prefix, valType)
+	delete(parents, typeId)
+	return self.encoder
+}
+
+func buildEncoder(cfg *frozenConfig, parents building, prefix string, valType reflect2.Type) Encoder {
 	for _, extension := range cfg.extensions {
 		encoder := extension.EncoderOf(prefix, valType.Type1())
 		if encoder != nil {
@@ -150,28 +174,28 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 		return &stringEncoder{}
 	case reflect.Ptr:
 		pointerType := valType.(reflect2.PtrType)
-		elemEncoder := encoderOf(cfg, prefix+" [ptrElem]", pointerType.Elem())
+		elemEncoder := encoderOf(cfg, parents, prefix+" [ptrElem]", pointerType.Elem())
 		return &pointerEncoder{elemEncoder: elemEncoder}
 	case reflect.Slice:
 		sliceType := valType.(reflect2.SliceType)
-		elemEncoder := encoderOf(cfg, prefix+" [sliceElem]", sliceType.Elem())
+		elemEncoder := encoderOf(cfg, parents, prefix+" [sliceElem]", sliceType.Elem())
 		return &sliceEncoder{
 			elemEncoder: elemEncoder,
 			sliceType:   sliceType.(*reflect2.UnsafeSliceType),
 		}
 	case reflect.Array:
 		arrayType := valType.(reflect2.ArrayType)
-		elemEncoder := encoderOf(cfg, prefix+" [sliceElem]", arrayType.Elem())
+		elemEncoder := encoderOf(cfg, parents, prefix+" [sliceElem]", arrayType.Elem())
 		return &arrayEncoder{
 			elemEncoder: elemEncoder,
 			arrayType:   arrayType.(*reflect2.UnsafeArrayType),
 		}
 	case reflect.Struct:
 		structType := valType.(reflect2.StructType)
-		return encoderOfStruct(cfg, prefix, structType)
+		return encoderOfStruct(cfg, parents, prefix, structType)
 	case reflect.Map:
 		mapType := valType.(reflect2.MapType)
-		return encoderOfMap(cfg, prefix, mapType)
+		return encoderOfMap(cfg, parents, prefix, mapType)
 	case reflect.Interface:
 		return &dynamicEncoder{valType:valType}
 	}
@@ -193,10 +217,10 @@ func (encoder *unsupportedEncoder) Encode(ctx context.Context, space []byte, ptr
 	return append(space, encoder.msg...)
 }
 
-func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *mapEncoder {
-	keyEncoder := encoderOfMapKey(cfg, prefix, valType.Key())
+func encoderOfMap(cfg *frozenConfig, parents building, prefix string, valType reflect2.MapType) *mapEncoder {
+	keyEncoder := _encoderOfMapKey(cfg, parents, prefix, valType.Key())
 	elemType := valType.Elem()
-	elemEncoder := encoderOf(cfg, prefix+" [mapElem]", elemType)
+	elemEncoder := encoderOf(cfg, parents, prefix+" [mapElem]", elemType)
 	return &mapEncoder{
 		keyEncoder:  keyEncoder,
 		elemEncoder: elemEncoder,
@@ -204,8 +228,8 @@ func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *m
 	}
 }
 
-func _encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) Encoder {
-	keyEncoder := encoderOf(cfg, prefix+" [mapKey]", keyType)
+func _encoderOfMapKey(cfg *frozenConfig, parents building, prefix string, keyType reflect2.Type) Encoder {
+	keyEncoder := encoderOf(cfg, parents, prefix+" [mapKey]", keyType)
 	if keyType.Kind() == reflect.String || keyType == bytesType {
 		return &mapStringKeyEncoder{keyEncoder}
 	}
@@ -223,7 +247,7 @@ func (encoder *onePtrInterfaceEncoder) Encode(ctx context.Context, space []byte,
 	return encoder.valEncoder.Encode(ctx, space, unsafe.Pointer(&ptr))
 }
 
-func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructType) *structEncoder {
+func encoderOfStruct(cfg *frozenConfig, parents building, prefix string, valType reflect2.StructType) *structEncoder {
 	var fields []structEncoderField
 	for i := 0; i < valType.NumField(); i++ {
 		field := valType.Field(i)
@@ -241,7 +265,7 @@ func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructTy
 		fields = append(fields, structEncoderField{
 			structField: field.(*reflect2.UnsafeStructField),
 			prefix:      prefix,
-			encoder:     encoderOf(cfg, prefix+" ."+name, field.Type()),
+			encoder:     encoderOf(cfg, parents, prefix+" ."+name, field.Type()),
 		})
 	}
 	return &structEncoder{
-- 
2.43.0


From c5d67370dee74f15a2b394173a0c3a46fd21d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 43/46] fix: treat unsafe.Pointer like the other pointer kinds
 in reflect2

---
 reflect2/reflect2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reflect2/reflect2.go b/reflect2/reflect2.go
index 7cf0365..dae8746 100644
--- a/reflect2/reflect2.go
+++ b/reflect2/reflect2.go
@@ -183,7 +183,7 @@ func (cfg *frozenConfig) wrapType(type1 reflect.Type) Type {
 			return &safeMapType{safeType}
 		}
 		return newUnsafeMapType(cfg, type1)
-	case reflect.Ptr, reflect.Chan, reflect.Func:
+	case reflect.Ptr, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		if cfg.useSafeImplementation {
 			return &safeMapType{safeType}
 		}
@@ -245,7 +245,7 @@ func IsNullable(kind reflect.Kind) bool {
 
 func likePtrKind(kind reflect.Kind) bool {
 	switch kind {
-	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return true
 	}
 	return false
-- 
2.43.0


From 91ac4b478c3e52a6198328cf20253fe665c5d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 44/46] fix: access fields of embedded structs at their own
 address

---
 reflect2/unsafe_field.go  | 21 ++++++++++++++++++---
 reflect2/unsafe_struct.go |  8 ++++----
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/reflect2/unsafe_field.go b/reflect2/unsafe_field.go
index 5eb5313..1a90a9a 100644
--- a/reflect2/unsafe_field.go
+++ b/reflect2/unsafe_field.go
@@ -10,10 +10,17 @@ type UnsafeStructField struct {
 	structType *UnsafeStructType
 	rtype      unsafe.Pointer
 	ptrRType   unsafe.Pointer
+	// path leads to the struct which has the field, if that is not structType itself
+	path []reflect.StructField
 }
 
-func newUnsafeStructField(structType *UnsafeStructType, structField reflect.StructField) *UnsafeStructField {
+func newUnsafeStructField(structType *UnsafeStructType, structField reflect.StructField, index []int) *UnsafeStructField {
+	var path []reflect.StructField
+	for i := 1; i < len(index); i++ {
+		path = append(path, structType.Type.FieldByIndex(index[:i]))
+	}
 	return &UnsafeStructField{
+		path:        path,
 		StructField: structField,
 		rtype:       unpackEFace(structField.Type).data,
 		ptrRType:    unpackEFace(reflect.PtrTo(structField.Type)).data,
@@ -58,8 +65,7 @@ func (field *UnsafeStructField) Set(obj interface{}, value interface{}) {
 }
 
 func (field *UnsafeStructField) UnsafeSet(obj unsafe.Pointer, value unsafe.Pointer) {
-	fieldPtr := add(obj, field.StructField.Offset, "same as non-reflect &v.field")
-	typedmemmove(field.rtype, fieldPtr, value)
+	typedmemmove(field.rtype, field.UnsafeGet(obj), value)
 }
 
 func (field *UnsafeStructField) Get(obj interface{}) interface{} {
@@ -70,5 +76,14 @@ func (field *UnsafeStructField) Get(obj interface{}) interface{} {
 }
 
 func (field *UnsafeStructField) UnsafeGet(obj unsafe.Pointer) unsafe.Pointer {
+	for _, outer := range field.path {
+		obj = add(obj, outer.Offset, "same as non-reflect &v.field")
+		if outer.Type.Kind() == reflect.Ptr {
+			obj = *(*unsafe.Pointer)(obj)
+			if obj == nil {
+				panic("StructField: indirection through nil pointer to embedded struct")
+			}
+		}
+	}
 	return add(obj, field.StructField.Offset, "same as non-reflect &v.field")
 }
diff --git a/reflect2/unsafe_struct.go b/reflect2/unsafe_struct.go
index f91ef17..07b23a3 100644
--- a/reflect2/unsafe_struct.go
+++ b/reflect2/unsafe_struct.go
@@ -39,15 +39,15 @@ func (type2 *UnsafeStructType) FieldByName(name string) StructField {
 	if !found {
 		return nil
 	}
-	return newUnsafeStructField(type2, structField)
+	return newUnsafeStructField(type2, structField, structField.Index)
 }
 
 func (type2 *UnsafeStructType) Field(i int) StructField {
-	return newUnsafeStructField(type2, type2.Type.Field(i))
+	return newUnsafeStructField(type2, type2.Type.Field(i), []int{i})
 }
 
 func (type2 *UnsafeStructType) FieldByIndex(index []int) StructField {
-	return newUnsafeStructField(type2, type2.Type.FieldByIndex(index))
+	return newUnsafeStructField(type2, type2.Type.FieldByIndex(index), index)
 }
 
 func (type2 *UnsafeStructType) FieldByNameFunc(match func(string) bool) StructField {
@@ -55,5 +55,5 @@ func (type2 *UnsafeStructType) FieldByNameFunc(match func(string) bool) StructFi
 	if !found {
 		panic("field match condition not found in " + type2.Type.String())
 	}
-	return newUnsafeStructField(type2, structField)
+	return newUnsafeStructField(type2, structField, structField.Index)
 }
\ No newline at end of file
-- 
2.43.0


From 6c0c7c45ad4e962aaadcf6b1460633fbec1553c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 45/46] fix: look up map elements in reflect2's safe
 implementation

---
 reflect2/safe_map.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/reflect2/safe_map.go b/reflect2/safe_map.go
index 6a1ba23..aed797b 100644
--- a/reflect2/safe_map.go
+++ b/reflect2/safe_map.go
@@ -35,15 +35,14 @@ func (type2 *safeMapType) UnsafeSetIndex(obj unsafe.Pointer, key unsafe.Pointer,
 }
 
 func (type2 *safeMapType) TryGetIndex(obj interface{}, key interface{}) (interface{}, bool) {
-	keyVal := reflect.ValueOf(key)
-	if key == nil {
-		keyVal = reflect.New(type2.Type.Key()).Elem()
-	}
-	val := reflect.ValueOf(obj).MapIndex(keyVal)
-	if !val.IsValid() {
+	keyVal := reflect.ValueOf(key).Elem()
+	elemVal := reflect.ValueOf(obj).Elem().MapIndex(keyVal)
+	if !elemVal.IsValid() {
 		return nil, false
 	}
-	return val.Interface(), true
+	ptr := reflect.New(elemVal.Type())
+	ptr.Elem().Set(elemVal)
+	return ptr.Interface(), true
 }
 
 func (type2 *safeMapType) GetIndex(obj interface{}, key interface{}) interface{} {
-- 
2.43.0


From 827a12598b11de4ce1670733b3d833a385a08cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 46/46] fix: grow slices in reflect2's safe implementation

---
 reflect2/safe_slice.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reflect2/safe_slice.go b/reflect2/safe_slice.go
index 7e348c1..3b8ce26 100644
--- a/reflect2/safe_slice.go
+++ b/reflect2/safe_slice.go
@@ -43,11 +43,13 @@ func (type2 *safeSliceType) UnsafeMakeSlice(length int, cap int) unsafe.Pointer
 }
 
 func (type2 *safeSliceType) Grow(obj interface{}, newLength int) {
-	oldCap := type2.Cap(obj)
 	oldSlice := reflect.ValueOf(obj).Elem()
-	delta := newLength - oldCap
-	deltaVals := make([]reflect.Value, delta)
-	newSlice := reflect.Append(oldSlice, deltaVals...)
+	if newLength <= oldSlice.Cap() {
+		oldSlice.SetLen(newLength)
+		return
+	}
+	newSlice := reflect.MakeSlice(type2.Type, newLength, calcNewCap(oldSlice.Cap(), newLength))
+	reflect.Copy(newSlice, oldSlice)
 	oldSlice.Set(newSlice)
 }
 
-- 
2.43.0

