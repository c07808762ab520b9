From 4f0fff6415021663655378a3c6b97a6bff217d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:57 +0000
Subject: [PATCH 01/69] fix: release the state lock when initialize is repeated

A second initialize request returned with the state mutex held, so the
following shutdown (or initialized) blocked for ever.
---
 internal/lsp/general.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/lsp/general.go b/internal/lsp/general.go
index 704e8e9..0dd0d99 100644
--- a/internal/lsp/general.go
+++ b/internal/lsp/general.go
@@ -28,6 +28,7 @@ func (s *Server) initialize(ctx context.Context, params *protocol.InitializePara
 	s.stateMu.Lock()
 	state := s.state
 	if state >= serverInitializing {
+		s.stateMu.Unlock()
 		return nil, jsonrpc2.NewErrorf(jsonrpc2.CodeInvalidRequest, "already initialised")
 	}
 	s.state = serverInitializing
-- 
2.43.0


From 61d8e58b03dd341b2fdee57b071bf01d48e9c43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:57 +0000
Subject: [PATCH 02/69] fix: keep reading after a response nobody waits for

A response with an unknown id was sent on a nil channel, and one that came
after its call was cancelled on a channel without a receiver: both blocked
the read loop of the connection for ever.
---
 internal/jsonrpc2/jsonrpc2.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/jsonrpc2/jsonrpc2.go b/internal/jsonrpc2/jsonrpc2.go
index 62c8141..8c36d05 100644
--- a/internal/jsonrpc2/jsonrpc2.go
+++ b/internal/jsonrpc2/jsonrpc2.go
@@ -149,7 +149,9 @@ func (c *Conn) Call(ctx context.Context, method string, params, result interface
 	}
 	// we have to add ourselves to the pending map before we send, otherwise we
 	// are racing the response
-	rchan := make(chan *WireResponse)
+	// room for the one response, so that delivering it never blocks the reader,
+	// even if the call has been cancelled in the meantime
+	rchan := make(chan *WireResponse, 1)
 	c.pendingMu.Lock()
 	c.pending[id] = rchan
 	c.pendingMu.Unlock()
@@ -380,6 +382,13 @@ func (c *Conn) Run(runCtx context.Context) error {
 				delete(c.pending, *msg.ID)
 			}
 			c.pendingMu.Unlock()
+			if rchan == nil {
+				// nobody is waiting for this response (any more)
+				for _, h := range c.handlers {
+					h.Error(runCtx, fmt.Errorf("response to unknown call %v, ignoring", msg.ID))
+				}
+				continue
+			}
 			// and send the reply to the channel
 			response := &WireResponse{
 				Result: msg.Result,
-- 
2.43.0


From ce71c6836d26be8cdddcc1e0c1300ce0a37e01cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 03/69] fix: survive messages sent without params

Deliver dereferenced the params of every message, so one that left them out
(or sent null) crashed the server.
---
 internal/lsp/protocol/client.go |  3 +++
 internal/lsp/protocol/server.go | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/internal/lsp/protocol/client.go b/internal/lsp/protocol/client.go
index 288c2fb..c852ffe 100644
--- a/internal/lsp/protocol/client.go
+++ b/internal/lsp/protocol/client.go
@@ -38,6 +38,9 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 	handleError := func(err error) {
 		log.Printf("Client.Deliver %s: %v", r.Method, err)
 	}
+	if r.Params == nil && r.Method != "workspace/workspaceFolders" {
+		r.Params = absentParams()
+	}
 	switch r.Method {
 	case "window/showMessage": // notif
 		var params ShowMessageParams
diff --git a/internal/lsp/protocol/server.go b/internal/lsp/protocol/server.go
index febff16..386abd5 100644
--- a/internal/lsp/protocol/server.go
+++ b/internal/lsp/protocol/server.go
@@ -60,6 +60,13 @@ type Server interface {
 	DocumentSignatures(context.Context, *TextDocumentIdentifier) ([]TextEdit, error)
 }
 
+// absentParams stands in for the params of a message that was sent without any,
+// they decode to the zero value
+func absentParams() *json.RawMessage {
+	raw := json.RawMessage("null")
+	return &raw
+}
+
 func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, delivered bool) bool {
 	if delivered {
 		return false
@@ -72,6 +79,9 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 	handleError := func(err error) {
 		log.Printf("Server.Deliver %s: %v", r.Method, err)
 	}
+	if r.Params == nil && r.Method != "shutdown" {
+		r.Params = absentParams()
+	}
 	switch r.Method {
 	case "workspace/didChangeWorkspaceFolders": // notif
 		var params DidChangeWorkspaceFoldersParams
-- 
2.43.0


From 42c013ee93fd0383bd5b7a7b1e5923d82b08d247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 04/69] fix: close every database of a store

The completion database stayed open after Close, and a failing NewStore left
the databases it had opened already: both keep their lock files, so the same
folder could not be opened again by the process.
---
 analysis/store.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analysis/store.go b/analysis/store.go
index 2ba2f37..4d0c7de 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -219,10 +219,13 @@ func NewStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Stor
 	}
 	comDB, err := storage.NewGoLevelDB(path.Join(storePath, "completion"))
 	if err != nil {
+		db.Close()
 		return nil, err
 	}
 	greb, err := pogreb.Open(path.Join(storePath, "pogreb"), nil)
 	if err != nil {
+		db.Close()
+		comDB.Close()
 		return nil, err
 	}
 	store := &Store{
@@ -247,6 +250,7 @@ func (s *Store) Close() {
 		return
 	}
 	s.db.Close()
+	s.comDB.Close()
 	s.greb.Close()
 	s.isClosed = true
 }
-- 
2.43.0


From d9f22a1a5a92c0aa148c0a59b7fc7143cf022b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:01 +0000
Subject: [PATCH 05/69] fix: account for index jobs whose URI cannot be decoded

The creator skipped such a job without marking it done, so the indexing that
queued it (a file name like "100%.php" is enough) waited for it for ever and
never cleaned up after the deleted files.
---
 internal/lsp/workspaceStore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 31603cf..9056064 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -53,6 +53,9 @@ func (s *workspaceStore) newCreator(id int) {
 		uri, err := util.DecodeURIFromQuery(job.uri)
 		if err != nil {
 			log.Printf("workspaceStore.getStore cannot DecodeURIFromQuery %s, err: %v", job.uri, err)
+			if job.waitGroup != nil {
+				job.waitGroup.Done()
+			}
 			continue
 		}
 		store := s.getStore(uri)
-- 
2.43.0


From 5b0469739b2e18f76c5ee728e3635ef57cb65272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 06/69] fix: detach background indexing from the request that
 starts it

The context of a request is cancelled as soon as its handler returns, while
the files are still being listed and read: with a client side file system
the reads failed, and the files not read were removed from the index.
---
 internal/lsp/sync.go           | 3 +++
 internal/lsp/workspaceStore.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/lsp/sync.go b/internal/lsp/sync.go
index a685252..9a9882a 100644
--- a/internal/lsp/sync.go
+++ b/internal/lsp/sync.go
@@ -10,6 +10,7 @@ import (
 	"sync"
 
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/internal/xcontext"
 	"github.com/john-nguyen09/phpintel/util"
 )
 
@@ -41,6 +42,8 @@ func (s *Server) didClose(ctx context.Context, params *protocol.DidCloseTextDocu
 }
 
 func (s *Server) didChangeWatchedFiles(ctx context.Context, params *protocol.DidChangeWatchedFilesParams) error {
+	// the files are indexed after this notification has been handled
+	ctx = xcontext.Detach(ctx)
 	go func() {
 		var wg sync.WaitGroup
 		changes := append(params.Changes[:0:0], params.Changes...)
diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 9056064..446cbd4 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/john-nguyen09/phpintel/analysis"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/internal/xcontext"
 	"github.com/john-nguyen09/phpintel/util"
 )
 
@@ -189,6 +190,8 @@ func (s *workspaceStore) unregisterFileWatcher(ctx context.Context, path string,
 func (s *workspaceStore) indexFolder(ctx context.Context, store *analysis.Store, rootPath string) {
 	var waitGroup sync.WaitGroup
 	store.PrepareForIndexing()
+	// the indexing outlives the request which has started it
+	ctx = xcontext.Detach(ctx)
 	go func() {
 		log.Println("Start indexing")
 		start := time.Now()
-- 
2.43.0


From 7c028570c9a0a0732fc47525dd0c8442e9cc36fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 07/69] fix: serve a document from the folder that contains it

The store was chosen by a bare prefix of the URI: with the folders app and
app2 open, documents of app2 were read from and indexed in app, and closing
app2 closed the store of app.
---
 internal/lsp/workspaceStore.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 446cbd4..7d80945 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -148,7 +148,7 @@ func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protoc
 
 func (s *workspaceStore) removeView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
 	store := s.getStore(uri)
-	if store == nil {
+	if store == nil || store.GetURI() != uri {
 		return
 	}
 	defer store.Close()
@@ -221,12 +221,18 @@ func (s *workspaceStore) indexFolder(ctx context.Context, store *analysis.Store,
 }
 
 func (s *workspaceStore) getStore(uri protocol.DocumentURI) *analysis.Store {
+	var found *analysis.Store
 	for _, store := range s.stores {
-		if strings.HasPrefix(uri, store.GetURI()) {
-			return store
+		if isInFolder(uri, store.GetURI()) && (found == nil || len(store.GetURI()) > len(found.GetURI())) {
+			found = store
 		}
 	}
-	return nil
+	return found
+}
+
+// isInFolder returns true if the URI is the folder or is inside of it
+func isInFolder(uri protocol.DocumentURI, folder protocol.DocumentURI) bool {
+	return uri == folder || strings.HasPrefix(uri, strings.TrimSuffix(folder, "/")+"/")
 }
 
 func (s *workspaceStore) removeStore(uri protocol.DocumentURI) {
-- 
2.43.0


From 66ef638fd54065016d0878ac7b62bba1bd9792ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 08/69] fix: delete only the documents inside of a deleted
 folder

Deleting the folder foo also removed every document of foobar/ and foo.php
from the index, because the URI of the folder was used as a bare prefix.
---
 analysis/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/store.go b/analysis/store.go
index 4d0c7de..e311e13 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -387,7 +387,7 @@ func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
 
 // DeleteFolder searches for documents and triggers `DeleteDocument`
 func (s *Store) DeleteFolder(uri protocol.DocumentURI) {
-	entry := newEntry(documentCollection, uri)
+	entry := newEntry(documentCollection, strings.TrimSuffix(uri, "/")+"/")
 	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
 		uri := strings.Split(string(it.Key()), KeySep)[1]
 		s.DeleteDocument(uri)
-- 
2.43.0


From 1ed874f865c04b63e85ebf411b87631866c38505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 09/69] fix: do not record a document as indexed when its
 completions are not

A failure to write the completion entries was dropped, and the hash of the
document was committed: it was never indexed again until it changed.
---
 analysis/store.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index e311e13..bf23ddf 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -433,7 +433,7 @@ func (s *Store) CompareAndIndexDocument(ctx context.Context, uri string) *Docume
 func (s *Store) SyncDocument(document *Document) {
 	defer util.TimeTrack(time.Now(), "SyncDocument")
 	err := s.db.WriteBatch(func(b storage.Batch) error {
-		s.comDB.WriteBatch(func(comB storage.Batch) error {
+		return s.comDB.WriteBatch(func(comB storage.Batch) error {
 			ciDeletor := newCompletionIndexDeletor(s.comDB, document.GetURI())
 			syDeletor := newSymbolDeletor(s.db, s.greb, document.GetURI())
 			s.refIndex.deleteURI(s, b, document.GetURI())
@@ -445,7 +445,6 @@ func (s *Store) SyncDocument(document *Document) {
 			b.Put(entry.getKeyBytes(), document.GetHash())
 			return nil
 		})
-		return nil
 	})
 	if err != nil {
 		log.Print(err)
-- 
2.43.0


From 03ae323b3824b3d489d5e03f92c91aa0d901834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 10/69] fix: do not exit on an error while handling a message

A failing read of the symbol list (the store may be closed by a shutdown
while files are still being indexed) and a failing memory profile exited the
process, without answering the request and without closing the stores.
---
 analysis/store.go       |  2 +-
 internal/lsp/general.go | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index bf23ddf..17424a7 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -136,7 +136,7 @@ func readDocumentSymbols(greb *pogreb.DB, e *entry, fn func(documentSymbol) bool
 		}
 	}
 	if err != nil {
-		log.Fatal(err)
+		log.Printf("readDocumentSymbols error: %v", err)
 	}
 }
 
diff --git a/internal/lsp/general.go b/internal/lsp/general.go
index 0dd0d99..1521a9f 100644
--- a/internal/lsp/general.go
+++ b/internal/lsp/general.go
@@ -109,12 +109,13 @@ func (s *Server) shutdown(ctx context.Context) error {
 	if memprofile != "" {
 		f, err := os.Create(memprofile)
 		if err != nil {
-			log.Fatal("Could not create memory profile: ", err)
-		}
-		defer f.Close()
-		runtime.GC()
-		if err := pprof.WriteHeapProfile(f); err != nil {
-			log.Fatal("could not start memory profile: ", err)
+			log.Println("Could not create memory profile: ", err)
+		} else {
+			defer f.Close()
+			runtime.GC()
+			if err := pprof.WriteHeapProfile(f); err != nil {
+				log.Println("could not start memory profile: ", err)
+			}
 		}
 	}
 	s.stateMu.Lock()
-- 
2.43.0


From afa7bea11a4d347c3d661d5c284f7435a5b8e91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 11/69] fix: end the lookup of properties and constants of
 cyclic classes

The walk over the parents of a class never marked the classes it visited, so
with class A extends B and class B extends A it went round for ever.
---
 analysis/query.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/analysis/query.go b/analysis/query.go
index c7288fe..b5808bc 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -654,6 +654,10 @@ func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[
 	for len(classes) > 0 {
 		var class *Class
 		class, classes = classes[0], classes[1:]
+		if _, ok := searchedFQNs[class.Name.GetFQN()]; ok {
+			continue
+		}
+		searchedFQNs[class.Name.GetFQN()] = struct{}{}
 		classConsts.Consts = append(classConsts.Consts,
 			classConstWithScopeFromConsts(class, q.GetClassConsts(class.Name.GetFQN(), name))...)
 		if !class.Extends.IsEmpty() {
@@ -898,6 +902,10 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 	propsFromInterfaces := NewInheritedProps(nil, searchedFQNs)
 	for len(classes) > 0 {
 		class, classes = classes[0], classes[1:]
+		if _, ok := searchedFQNs[class.Name.GetFQN()]; ok {
+			continue
+		}
+		searchedFQNs[class.Name.GetFQN()] = struct{}{}
 		props.Props = append(props.Props, propWithScopeFromProps(class, q.GetProps(class.Name.GetFQN(), name))...)
 		if !class.Extends.IsEmpty() {
 			if _, ok := searchedFQNs[class.Extends.GetFQN()]; !ok {
-- 
2.43.0


From d7ab76926f19efce6d55c74e56adec652bfdcead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 12/69] fix: do not filter members in the cached slice

Searching filtered the members of a class in place, in the slice that is kept
in the cache of the query: the next search with another keyword saw what was
left of it.
---
 analysis/query.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/analysis/query.go b/analysis/query.go
index b5808bc..4f52ce1 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -503,7 +503,7 @@ func (q *Query) SearchClassMethods(class *Class, keyword string, searchedFQNs ma
 	}
 	methods := q.GetClassMethods(class, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := methods.Methods[:0]
+		newMethods := methods.Methods[:0:0]
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, method := range methods.Methods {
 			if matched, score := isMatch(method.Method.Name, patternRune); matched {
@@ -523,7 +523,7 @@ func (q *Query) SearchInterfaceMethods(intf *Interface, keyword string, searched
 	}
 	methods := q.GetInterfaceMethods(intf, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := methods.Methods[:0]
+		newMethods := methods.Methods[:0:0]
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, method := range methods.Methods {
 			if matched, score := isMatch(method.Method.Name, patternRune); matched {
@@ -728,7 +728,7 @@ func (q *Query) SearchClassClassConsts(class *Class, keyword string, searchedFQN
 	}
 	classConsts := q.GetClassClassConsts(class, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := classConsts.Consts[:0]
+		newMethods := classConsts.Consts[:0:0]
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, classConst := range classConsts.Consts {
 			if matched, score := isMatch(classConst.Const.Name, patternRune); matched {
@@ -748,7 +748,7 @@ func (q *Query) SearchInterfaceClassConsts(intf *Interface, keyword string, sear
 	}
 	classConsts := q.GetInterfaceClassConsts(intf, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := classConsts.Consts[:0]
+		newMethods := classConsts.Consts[:0:0]
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, classConst := range classConsts.Consts {
 			if matched, score := isMatch(classConst.Const.Name, patternRune); matched {
@@ -971,7 +971,7 @@ func (q *Query) SearchClassProps(class *Class, keyword string, searchedFQNs map[
 	}
 	props := q.GetClassProps(class, "", searchedFQNs)
 	if keyword != "" {
-		newProps := props.Props[:0]
+		newProps := props.Props[:0:0]
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, prop := range props.Props {
 			if matched, score := isMatch(prop.Prop.Name, patternRune); matched {
@@ -991,7 +991,7 @@ func (q *Query) SearchInterfaceProps(intf *Interface, keyword string, searchedFQ
 	}
 	props := q.GetInterfaceProps(intf, "", searchedFQNs)
 	if keyword != "" {
-		newProps := props.Props[:0]
+		newProps := props.Props[:0:0]
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, prop := range props.Props {
 			if matched, score := isMatch(prop.Prop.Name, patternRune); matched {
-- 
2.43.0


From 50c2648395eed788d30880eb42bc84bb607a4549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 13/69] fix: only reuse the members of a class found by a full
 search

The members of a class or an interface are looked up without the ones of the
classes searched before, and that partial result was kept in the cache of the
query as if it was everything the class has.
---
 analysis/query.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/analysis/query.go b/analysis/query.go
index 4f52ce1..7366231 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -398,6 +398,8 @@ func (q *Query) GetClassMethods(class *Class, name string, searchedFQNs map[stri
 	if searchedFQNs == nil {
 		searchedFQNs = map[string]struct{}{}
 	}
+	// what was searched already is left out, only a search from scratch can be reused
+	isComplete := len(searchedFQNs) == 0
 	cacheKey := "ClassMethods" + sep + class.Name.GetFQN() + "::" + name
 	if data, ok := q.cache[cacheKey]; ok {
 		if methods, ok := data.(InheritedMethods); ok {
@@ -438,7 +440,9 @@ func (q *Query) GetClassMethods(class *Class, name string, searchedFQNs map[stri
 		}
 	}
 	methods.Merge(methodsFromInterfaces)
-	q.cache[cacheKey] = methods
+	if isComplete {
+		q.cache[cacheKey] = methods
+	}
 	return methods
 }
 
@@ -450,6 +454,8 @@ func (q *Query) GetInterfaceMethods(intf *Interface, name string, searchedFQNs m
 	if searchedFQNs == nil {
 		searchedFQNs = make(map[string]struct{})
 	}
+	// what was searched already is left out, only a search from scratch can be reused
+	isComplete := len(searchedFQNs) == 0
 	cacheKey := "InterfaceMethods" + sep + intf.Name.GetFQN() + "::" + name
 	if data, ok := q.cache[cacheKey]; ok {
 		if methods, ok := data.(InheritedMethods); ok {
@@ -477,7 +483,9 @@ func (q *Query) GetInterfaceMethods(intf *Interface, name string, searchedFQNs m
 			}
 		}
 	}
-	q.cache[cacheKey] = methods
+	if isComplete {
+		q.cache[cacheKey] = methods
+	}
 	return methods
 }
 
@@ -637,6 +645,8 @@ func (q *Query) GetClassConsts(scope string, name string) []*ClassConst {
 
 // GetClassClassConsts returns the inherited class const
 func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[string]struct{}) InheritedClassConst {
+	// what was searched already is left out, only a search from scratch can be reused
+	isComplete := len(searchedFQNs) == 0
 	cacheKey := "ClassClassConst" + sep + class.Name.GetFQN() + "::" + name
 	if data, ok := q.cache[cacheKey]; ok {
 		if classConsts, ok := data.(InheritedClassConst); ok {
@@ -677,7 +687,9 @@ func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[
 		}
 	}
 	classConsts.Merge(classConstsFromInterfaces)
-	q.cache[cacheKey] = classConsts
+	if isComplete {
+		q.cache[cacheKey] = classConsts
+	}
 	return classConsts
 }
 
@@ -689,6 +701,8 @@ func (q *Query) GetInterfaceClassConsts(intf *Interface, name string, searchedFQ
 	if searchedFQNs == nil {
 		searchedFQNs = make(map[string]struct{})
 	}
+	// what was searched already is left out, only a search from scratch can be reused
+	isComplete := len(searchedFQNs) == 0
 	cacheKey := "InterfaceClassConst" + sep + intf.Name.GetFQN() + "::" + name
 	if data, ok := q.cache[cacheKey]; ok {
 		if cc, ok := data.(InheritedClassConst); ok {
@@ -717,7 +731,9 @@ func (q *Query) GetInterfaceClassConsts(intf *Interface, name string, searchedFQ
 			}
 		}
 	}
-	q.cache[cacheKey] = classConsts
+	if isComplete {
+		q.cache[cacheKey] = classConsts
+	}
 	return classConsts
 }
 
@@ -892,6 +908,8 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 	if searchedFQNs == nil {
 		searchedFQNs = map[string]struct{}{}
 	}
+	// what was searched already is left out, only a search from scratch can be reused
+	isComplete := len(searchedFQNs) == 0
 	cacheKey := "ClassProps" + sep + class.Name.GetFQN() + "::" + name
 	if data, ok := q.cache[cacheKey]; ok {
 		if p, ok := data.(InheritedProps); ok {
@@ -922,7 +940,9 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 		}
 	}
 	props.Merge(propsFromInterfaces)
-	q.cache[cacheKey] = props
+	if isComplete {
+		q.cache[cacheKey] = props
+	}
 	return props
 }
 
@@ -934,6 +954,8 @@ func (q *Query) GetInterfaceProps(intf *Interface, name string, searchedFQNs map
 	if searchedFQNs == nil {
 		searchedFQNs = make(map[string]struct{})
 	}
+	// what was searched already is left out, only a search from scratch can be reused
+	isComplete := len(searchedFQNs) == 0
 	cacheKey := "InterfaceProps" + sep + intf.Name.GetFQN() + "::" + name
 	if data, ok := q.cache[cacheKey]; ok {
 		if p, ok := data.(InheritedProps); ok {
@@ -960,7 +982,9 @@ func (q *Query) GetInterfaceProps(intf *Interface, name string, searchedFQNs map
 			}
 		}
 	}
-	q.cache[cacheKey] = props
+	if isComplete {
+		q.cache[cacheKey] = props
+	}
 	return props
 }
 
-- 
2.43.0


From c1c3dd7a25ad8587b9759a353e378f029191cff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:47 +0000
Subject: [PATCH 14/69] fix: index interfaces that extend fully qualified names

---
 analysis/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/interface.go b/analysis/interface.go
index 209dc85..812ca58 100644
--- a/analysis/interface.go
+++ b/analysis/interface.go
@@ -85,7 +85,7 @@ func (s *Interface) extends(document *Document, node *phrase.Phrase) {
 			}
 			child = traverser.Advance()
 			for child != nil {
-				if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.QualifiedName {
+				if p, ok := child.(*phrase.Phrase); ok && (p.Type == phrase.QualifiedName || p.Type == phrase.FullyQualifiedName) {
 					s.Extends = append(s.Extends, transformQualifiedName(p, document))
 				}
 				child = traverser.Advance()
-- 
2.43.0


From c9444704e4cfcb61fdcbb39b7eabb561f4e77549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 15/69] fix: do not find the class constants whose names only
 start alike

---
 analysis/store.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 17424a7..50b32c2 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -1002,10 +1002,11 @@ func (s *Store) SearchMethods(scope string, keyword string, options SearchOption
 func (s *Store) GetClassConsts(scope string, name string) []*ClassConst {
 	entry := newEntry(classConstCollection, scope+KeySep+name)
 	classConsts := []*ClassConst{}
-	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
-		d := storage.NewDecoder(it.Value())
+	// the key of a class constant ends with its name, a prefix would match longer names
+	if value, err := s.db.Get(entry.getKeyBytes()); err == nil && len(value) > 0 {
+		d := storage.NewDecoder(value)
 		classConsts = append(classConsts, ReadClassConst(d))
-	})
+	}
 	return classConsts
 }
 
-- 
2.43.0


From bc283ba1457f8aa737107f84d455b062e8fe3d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:42 +0000
Subject: [PATCH 16/69] fix: report completions as incomplete when any search
 stops early

---
 analysis/store.go          |  4 +++-
 internal/lsp/completion.go | 14 +++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 50b32c2..d1f6072 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -690,16 +690,18 @@ func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class,
 				return false
 			})
 		}
+		isComplete := true
 		s.getClassesByScopeStream(scope, func(class *Class) onDataResult {
 			if isSymbolValid(class, options) {
 				classes = append(classes, class)
 				if options.IsLimitReached() {
+					isComplete = false
 					return onDataResult{true}
 				}
 			}
 			return onDataResult{false}
 		})
-		return classes, SearchResult{true}
+		return classes, SearchResult{isComplete}
 	}
 	options.predicates = append(options.predicates, namespacePredicate(scope))
 	query := searchQuery{
diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 7e8c5b9..cb1a332 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -225,13 +225,13 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		completionList.Items = append(completionList.Items, classToCompletionItem(class, label, textEdit))
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, intf := range interfaces {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, intf, intf.Name, word)
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, label, textEdit))
 	}
 	consts, searchResult := store.SearchConsts(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, constant := range consts {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, constant, constant.Name, word)
 		textEdits := []protocol.TextEdit{}
@@ -247,7 +247,7 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		})
 	}
 	defines, searchResult := store.SearchDefines(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, define := range defines {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, define, define.Name, word)
 		textEdits := []protocol.TextEdit{}
@@ -264,7 +264,7 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		})
 	}
 	functions, searchResult := store.SearchFunctions(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, function := range functions {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, function, function.Name, word)
 		insertText, textFormat, command := hasParamsInsertText(function, label)
@@ -434,7 +434,7 @@ func typeCompletion(ctx *completionContext, word string) *protocol.CompletionLis
 		})
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, theInterface := range interfaces {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, theInterface, theInterface.Name, word)
 		textEdits := []protocol.TextEdit{}
@@ -501,12 +501,12 @@ func useCompletion(ctx *completionContext, word string) *protocol.CompletionList
 		completionList.Items = append(completionList.Items, classToCompletionItem(class, class.Name.GetOriginal(), nil))
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, intf := range interfaces {
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, intf.Name.GetOriginal(), nil))
 	}
 	traits, searchResult := store.SearchTraits(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, trait := range traits {
 		completionList.Items = append(completionList.Items, traitToCompletionItem(trait, trait.Name.GetOriginal(), nil))
 	}
-- 
2.43.0


From 1ed79145fc25e6f6ca7e679180a82446ebf4e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:02 +0000
Subject: [PATCH 17/69] fix: load a document before answering from it

---
 analysis/document.go       | 8 ++++++++
 internal/lsp/completion.go | 1 +
 internal/lsp/definition.go | 2 +-
 internal/lsp/hover.go      | 2 +-
 internal/lsp/reference.go  | 2 ++
 internal/lsp/signature.go  | 1 +
 internal/lsp/symbol.go     | 2 +-
 7 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 4371962..7520b31 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -103,6 +103,14 @@ func (s *Document) Load() {
 	}
 }
 
+// EnsureLoaded loads the document if it has not been loaded, it must not be
+// called while the document is locked
+func (s *Document) EnsureLoaded() {
+	s.Lock()
+	defer s.Unlock()
+	s.Load()
+}
+
 // GetURI is a getter for uri
 func (s *Document) GetURI() string {
 	return s.uri
diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index cb1a332..6eaf627 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -69,6 +69,7 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 	if document == nil {
 		return nil, nil
 	}
+	document.EnsureLoaded()
 	var completionList *protocol.CompletionList = nil
 	pos := params.Position
 	q := analysis.NewQuery(store)
diff --git a/internal/lsp/definition.go b/internal/lsp/definition.go
index 85f499c..7d42dd4 100644
--- a/internal/lsp/definition.go
+++ b/internal/lsp/definition.go
@@ -19,7 +19,7 @@ func (s *Server) definition(ctx context.Context, params *protocol.DefinitionPara
 	if document == nil {
 		return nil, nil
 	}
-	document.Load()
+	document.EnsureLoaded()
 	q := analysis.NewQuery(store)
 	resolveCtx := analysis.NewResolveContext(q, document)
 	pos := params.TextDocumentPositionParams.Position
diff --git a/internal/lsp/hover.go b/internal/lsp/hover.go
index c29be26..5108848 100644
--- a/internal/lsp/hover.go
+++ b/internal/lsp/hover.go
@@ -20,7 +20,7 @@ func (s *Server) hover(ctx context.Context, params *protocol.HoverParams) (*prot
 	}
 	q := analysis.NewQuery(store)
 	resolveCtx := analysis.NewResolveContext(q, document)
-	document.Load()
+	document.EnsureLoaded()
 	pos := params.TextDocumentPositionParams.Position
 	symbol := document.HasTypesAtPos(pos)
 	var hover *protocol.Hover = nil
diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index 443b5df..cabc4e0 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -35,6 +35,7 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 	if document == nil {
 		return nil, nil
 	}
+	document.EnsureLoaded()
 	pos := params.TextDocumentPositionParams.Position
 	nodes := document.NodeSpineAt(document.OffsetAtPosition(pos))
 	// log.Printf("Reference: %v %s", pos, nodes)
@@ -96,6 +97,7 @@ func (s *Server) rename(ctx context.Context, params *protocol.RenameParams) (*pr
 	if doc == nil {
 		return nil, nil
 	}
+	doc.EnsureLoaded()
 	pos := params.Position
 	symbol := doc.HasTypesAtPos(pos)
 	result := &protocol.WorkspaceEdit{
diff --git a/internal/lsp/signature.go b/internal/lsp/signature.go
index 5c9ff7c..f2b4013 100644
--- a/internal/lsp/signature.go
+++ b/internal/lsp/signature.go
@@ -29,6 +29,7 @@ func (s *Server) signatureHelp(ctx context.Context, params *protocol.SignatureHe
 	if document == nil {
 		return nil, nil
 	}
+	document.EnsureLoaded()
 	pos := params.TextDocumentPositionParams.Position
 	nodeStack := document.NodeSpineAt(document.OffsetAtPosition(pos))
 	if nodeStack.Parent().Type == phrase.ArrayInitialiserList {
diff --git a/internal/lsp/symbol.go b/internal/lsp/symbol.go
index 6ecdec7..b7f1882 100644
--- a/internal/lsp/symbol.go
+++ b/internal/lsp/symbol.go
@@ -35,7 +35,7 @@ func (s *Server) documentSymbol(ctx context.Context, params *protocol.DocumentSy
 	if document == nil {
 		return symbols, nil
 	}
-	document.Load()
+	document.EnsureLoaded()
 
 	results := []protocol.DocumentSymbol{}
 	for _, child := range document.Children {
-- 
2.43.0


From 6c8eebc8a0401b11748c2119f8e24fd6d17f6d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 18/69] fix: do not index from or release a document that
 changed meanwhile

---
 analysis/store.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index d1f6072..cd86470 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -340,11 +340,10 @@ func (s *Store) OpenDocument(ctx context.Context, uri protocol.DocumentURI) *Doc
 		return nil
 	}
 	document.Lock()
-	defer func() {
-		document.Unlock()
-		s.releaseDocIfNotOpen(document)
-	}()
+	defer document.Unlock()
 	document.Open()
+	// indexing might have released the document before it was locked
+	s.SaveDocOnStore(document)
 	document.Load()
 	s.SyncDocument(document)
 	return document
@@ -360,8 +359,8 @@ func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
 	}
 	document.Lock()
 	defer func() {
-		document.Unlock()
 		s.releaseDocIfNotOpen(document)
+		document.Unlock()
 	}()
 	document.Close()
 	s.SyncDocument(document)
@@ -398,14 +397,21 @@ func (s *Store) DeleteFolder(uri protocol.DocumentURI) {
 // on the disk, and if they are not matched load the document and sync.
 // The pointer to the document is returned
 func (s *Store) CompareAndIndexDocument(ctx context.Context, uri string) *Document {
+	if value, ok := s.documents.Get(uri); ok {
+		// the file might have changed since a document that is not open was read
+		document := value.(*Document)
+		document.Lock()
+		s.releaseDocIfNotOpen(document)
+		document.Unlock()
+	}
 	document := s.GetOrCreateDocument(ctx, uri)
 	if document == nil {
 		return nil
 	}
 	document.Lock()
 	defer func() {
-		document.Unlock()
 		s.releaseDocIfNotOpen(document)
+		document.Unlock()
 	}()
 
 	currentMD5 := document.GetHash()
@@ -451,9 +457,12 @@ func (s *Store) SyncDocument(document *Document) {
 	}
 }
 
+// releaseDocIfNotOpen must be called while the document is locked
 func (s *Store) releaseDocIfNotOpen(document *Document) {
 	if !document.IsOpen() {
-		s.documents.Remove(document.uri)
+		s.documents.RemoveCb(document.uri, func(_ string, value interface{}, _ bool) bool {
+			return value == document
+		})
 	}
 }
 
-- 
2.43.0


From 0773c5f04d6fcb495e947a98a32791e52ff85372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 19/69] fix: do not crash on a folder that cannot be read

---
 internal/lsp/protocol/fs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/lsp/protocol/fs.go b/internal/lsp/protocol/fs.go
index d905203..a3ddb79 100644
--- a/internal/lsp/protocol/fs.go
+++ b/internal/lsp/protocol/fs.go
@@ -89,6 +89,8 @@ func (f *FileFS) ListFiles(ctx context.Context, base string) ([]TextDocumentIden
 	err := filepath.WalkDir(base, func(path string, info os.DirEntry, err error) error {
 		if err != nil {
 			log.Printf("FileFS.WalkDir error: %v", err)
+			// what cannot be read is skipped, there is no info about the base
+			return nil
 		}
 
 		if !info.IsDir() {
-- 
2.43.0


From 4e8511678a4d225de06e201967267693dd89c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:07 +0000
Subject: [PATCH 20/69] fix: only list workspace symbols that can be opened

---
 internal/lsp/symbol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/symbol.go b/internal/lsp/symbol.go
index b7f1882..da1a757 100644
--- a/internal/lsp/symbol.go
+++ b/internal/lsp/symbol.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/john-nguyen09/phpintel/analysis"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
+	"github.com/john-nguyen09/phpintel/util"
 )
 
 func toDocumentSymbolRecursive(symbol analysis.Symbol) protocol.DocumentSymbol {
@@ -132,7 +133,9 @@ func symbolToProtocolDocumentSymbol(symbol analysis.Symbol) (protocol.DocumentSy
 func (s *Server) workspaceSymbol(ctx context.Context, params *protocol.WorkspaceSymbolParams) ([]protocol.SymbolInformation, error) {
 	symbols := []protocol.SymbolInformation{}
 	if params.Query != "" {
-		opts := baseSearchOptions()
+		opts := baseSearchOptions().WithPredicate(func(s analysis.Symbol) bool {
+			return util.IsURINavigatable(s.GetLocation().URI)
+		})
 		for _, store := range s.store.stores {
 			classes, _ := store.SearchClasses(params.Query, opts)
 			for _, class := range classes {
-- 
2.43.0


From 6f1a12d8997aa04328cb3b98b4082c6be7db529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:40 +0000
Subject: [PATCH 21/69] fix: do not crash when there is no home directory

---
 internal/lsp/general.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/lsp/general.go b/internal/lsp/general.go
index 1521a9f..77470f4 100644
--- a/internal/lsp/general.go
+++ b/internal/lsp/general.go
@@ -18,8 +18,8 @@ import (
 func getDataDir() string {
 	homeDir, err := homedir.Dir()
 	if err != nil {
-		// No storage what can we do here?
-		panic(err)
+		log.Printf("getDataDir: %v", err)
+		return filepath.Join(os.TempDir(), ".phpintel")
 	}
 	return filepath.Join(homeDir, ".phpintel")
 }
-- 
2.43.0


From e02390b963bd4870ece2839d871c3a1c3c1a7203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:24 +0000
Subject: [PATCH 22/69] fix: guard the list of workspace folders

---
 internal/lsp/symbol.go         |  2 +-
 internal/lsp/workspaceStore.go | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/lsp/symbol.go b/internal/lsp/symbol.go
index da1a757..eeffdad 100644
--- a/internal/lsp/symbol.go
+++ b/internal/lsp/symbol.go
@@ -136,7 +136,7 @@ func (s *Server) workspaceSymbol(ctx context.Context, params *protocol.Workspace
 		opts := baseSearchOptions().WithPredicate(func(s analysis.Symbol) bool {
 			return util.IsURINavigatable(s.GetLocation().URI)
 		})
-		for _, store := range s.store.stores {
+		for _, store := range s.store.allStores() {
 			classes, _ := store.SearchClasses(params.Query, opts)
 			for _, class := range classes {
 				symbols = append(symbols, protocol.SymbolInformation{
diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 7d80945..d7b360c 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -27,6 +27,7 @@ type creatorJob struct {
 type workspaceStore struct {
 	server     *Server
 	ctx        context.Context
+	storesMu   sync.RWMutex
 	stores     []*analysis.Store
 	createJobs chan creatorJob
 	deleteJobs chan string
@@ -66,7 +67,7 @@ func (s *workspaceStore) newCreator(id int) {
 			}
 			log.Printf("workspaceStore.newCreator store not found: %s", uri)
 			log.Printf("Stores:")
-			for _, store := range s.stores {
+			for _, store := range s.allStores() {
 				log.Println(store.GetURI())
 			}
 			continue
@@ -94,8 +95,15 @@ func (s *workspaceStore) newDeletor(id int) {
 	}
 }
 
+// allStores returns a copy because folders can be added or removed meanwhile
+func (s *workspaceStore) allStores() []*analysis.Store {
+	s.storesMu.RLock()
+	defer s.storesMu.RUnlock()
+	return append([]*analysis.Store(nil), s.stores...)
+}
+
 func (s *workspaceStore) close() {
-	for _, store := range s.stores {
+	for _, store := range s.allStores() {
 		store.Close()
 	}
 }
@@ -134,7 +142,9 @@ func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protoc
 	}
 	store.Migrate(protocol.GetVersion(ctx))
 	store.LoadStubs()
+	s.storesMu.Lock()
 	s.stores = append(s.stores, store)
+	s.storesMu.Unlock()
 	if err != nil {
 		log.Printf("addView error: %v", err)
 		return
@@ -222,7 +232,7 @@ func (s *workspaceStore) indexFolder(ctx context.Context, store *analysis.Store,
 
 func (s *workspaceStore) getStore(uri protocol.DocumentURI) *analysis.Store {
 	var found *analysis.Store
-	for _, store := range s.stores {
+	for _, store := range s.allStores() {
 		if isInFolder(uri, store.GetURI()) && (found == nil || len(store.GetURI()) > len(found.GetURI())) {
 			found = store
 		}
@@ -236,6 +246,8 @@ func isInFolder(uri protocol.DocumentURI, folder protocol.DocumentURI) bool {
 }
 
 func (s *workspaceStore) removeStore(uri protocol.DocumentURI) {
+	s.storesMu.Lock()
+	defer s.storesMu.Unlock()
 	for i, store := range s.stores {
 		if store.GetURI() == uri {
 			s.stores = append(s.stores[:i], s.stores[i+1:]...)
-- 
2.43.0


From 855be7c31a1c26c14c561e1e30a683d9c9d029b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:42 +0000
Subject: [PATCH 23/69] fix: resolve functions and constants of an imported
 namespace

---
 analysis/importTable.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/analysis/importTable.go b/analysis/importTable.go
index dfcd52c..55b45ba 100644
--- a/analysis/importTable.go
+++ b/analysis/importTable.go
@@ -14,6 +14,11 @@ type importItem struct {
 	isUsed        bool
 }
 
+// qualify returns the fully qualified name of what follows the imported name
+func (i *importItem) qualify(parts []string) string {
+	return "\\" + strings.Join(append([]string{i.name}, parts...), "\\")
+}
+
 type ImportTable struct {
 	start     protocol.Position
 	namespace *Namespace
@@ -96,7 +101,7 @@ func (i ImportTable) GetFunctionReferenceFQN(q *Query, name TypeString) string {
 	}
 
 	if item, ok := aliasTable[firstPart]; ok {
-		return "\\" + item.name
+		return item.qualify(parts)
 	}
 	fqn := name.GetFQN()
 	if !IsFQN(fqn) {
@@ -118,7 +123,7 @@ func (i ImportTable) FunctionPossibleFQNs(name TypeString) []string {
 	}
 	results := []string{}
 	if item, ok := aliasTable[firstPart]; ok {
-		results = append(results, "\\"+item.name)
+		results = append(results, item.qualify(parts))
 		return results
 	}
 	fqn := name.GetFQN()
@@ -141,7 +146,7 @@ func (i ImportTable) GetConstReferenceFQN(q *Query, name TypeString) string {
 	}
 
 	if item, ok := aliasTable[firstPart]; ok {
-		return "\\" + item.name
+		return item.qualify(parts)
 	}
 	fqn := name.GetFQN()
 	if !IsFQN(fqn) {
-- 
2.43.0


From c035183f7ea4244ea45ba6f024d13927b2eb6123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:18 +0000
Subject: [PATCH 24/69] fix: do not apply imports to fully qualified class
 names

---
 analysis/importTable.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analysis/importTable.go b/analysis/importTable.go
index 55b45ba..6bd91dd 100644
--- a/analysis/importTable.go
+++ b/analysis/importTable.go
@@ -79,6 +79,10 @@ func (i *ImportTable) setNamespace(namespace *Namespace) {
 }
 
 func (i ImportTable) GetClassReferenceFQN(name TypeString) string {
+	if strings.HasPrefix(name.GetFQN(), "\\") {
+		// imports do not affect fully qualified names
+		return name.GetFQN()
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
 	if item, ok := i.classes[firstPart]; ok {
 		fqn := "\\" + item.name
-- 
2.43.0


From 6e724f31c601b2a5210716b93089ca00c7e8fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:36 +0000
Subject: [PATCH 25/69] fix: find the properties of used traits

---
 analysis/query.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/analysis/query.go b/analysis/query.go
index 7366231..539527b 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -925,6 +925,14 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 		}
 		searchedFQNs[class.Name.GetFQN()] = struct{}{}
 		props.Props = append(props.Props, propWithScopeFromProps(class, q.GetProps(class.Name.GetFQN(), name))...)
+		for _, use := range class.Use {
+			if use.IsEmpty() {
+				continue
+			}
+			for _, trait := range q.GetTraits(use.GetFQN()) {
+				props.Props = append(props.Props, propWithScopeFromProps(trait, q.GetProps(trait.Name.GetFQN(), name))...)
+			}
+		}
 		if !class.Extends.IsEmpty() {
 			if _, ok := searchedFQNs[class.Extends.GetFQN()]; !ok {
 				classes = append(classes, q.GetClasses(class.Extends.GetFQN())...)
-- 
2.43.0


From ce135017491c53037c3b074f0e9bff5ad7127501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:54 +0000
Subject: [PATCH 26/69] fix: look up the completion entries of the document
 only

---
 analysis/completionIndex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analysis/completionIndex.go b/analysis/completionIndex.go
index 82affd7..9024433 100644
--- a/analysis/completionIndex.go
+++ b/analysis/completionIndex.go
@@ -75,7 +75,8 @@ type completionIndexDeletor struct {
 func newCompletionIndexDeletor(db storage.DB, uri string) *completionIndexDeletor {
 	indexKeys := map[string]bool{}
 	keys := map[string]bool{}
-	entry := newEntry(documentCompletionIndex, uri)
+	// the separator keeps documents out whose URI starts with this one
+	entry := newEntry(documentCompletionIndex, uri+KeySep)
 	db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
 		keys[string(it.Key())] = true
 		d := storage.NewDecoder(it.Value())
-- 
2.43.0


From 2b377b293c158c2af423b9add714c2cc7a4110ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 27/69] fix: load a closed document before it is indexed

---
 analysis/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analysis/store.go b/analysis/store.go
index cd86470..b8b92f6 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -363,6 +363,7 @@ func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
 		document.Unlock()
 	}()
 	document.Close()
+	document.Load()
 	s.SyncDocument(document)
 }
 
-- 
2.43.0


From 16224d7a0bd42b7c396e96b16dbcb83a891b69b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:36 +0000
Subject: [PATCH 28/69] fix: compare a document with the hash it was last
 indexed with

---
 analysis/store.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index b8b92f6..9198fb4 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -416,17 +416,11 @@ func (s *Store) CompareAndIndexDocument(ctx context.Context, uri string) *Docume
 	}()
 
 	currentMD5 := document.GetHash()
-	savedMD5, ok := s.syncedDocumentURIs.Get(uri)
-	if ok {
-		s.syncedDocumentURIs.Remove(uri)
-	} else {
-		entry := newEntry(documentCollection, document.GetURI())
-		value, err := s.db.Get(entry.getKeyBytes())
-		if err == nil {
-			savedMD5 = value
-		}
-	}
-	if savedMD5 != nil && bytes.Equal(currentMD5, savedMD5.([]byte)) {
+	s.syncedDocumentURIs.Remove(uri)
+	// the document might have been indexed again since the indexing was prepared
+	entry := newEntry(documentCollection, document.GetURI())
+	savedMD5, err := s.db.Get(entry.getKeyBytes())
+	if err == nil && bytes.Equal(currentMD5, savedMD5) {
 		return document
 	}
 
-- 
2.43.0


From 27ed57c4153c175026a2f85118e4d60a0fbe5ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:27 +0000
Subject: [PATCH 29/69] fix: closing a combined store closes its disk store too

---
 analysis/storage/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/analysis/storage/main.go b/analysis/storage/main.go
index ea4398a..055dc8c 100644
--- a/analysis/storage/main.go
+++ b/analysis/storage/main.go
@@ -74,7 +74,9 @@ func (c *Combined) mode(mode DBMode) DB {
 }
 
 func (c *Combined) Close() {
-	c.mode(ModeMemory).Close()
+	for _, db := range c.dbs {
+		db.Close()
+	}
 }
 
 func (c *Combined) Clear(mode DBMode) {
-- 
2.43.0


From b7311d058aca35591b61aa69ac22ef28e2760f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:55 +0000
Subject: [PATCH 30/69] fix: open a document with the text of the editor

---
 internal/lsp/sync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/lsp/sync.go b/internal/lsp/sync.go
index 9a9882a..3d3b3ed 100644
--- a/internal/lsp/sync.go
+++ b/internal/lsp/sync.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 	"sync"
 
+	"github.com/john-nguyen09/phpintel/analysis"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/internal/xcontext"
 	"github.com/john-nguyen09/phpintel/util"
@@ -20,6 +21,10 @@ func (s *Server) didOpen(ctx context.Context, params *protocol.DidOpenTextDocume
 	if store == nil {
 		return nil
 	}
+	// from now on the text is that of the editor, which can differ from the file
+	opened := analysis.NewDocument(uri, []byte(params.TextDocument.Text))
+	opened.Open()
+	store.SaveDocOnStore(opened)
 	document := store.OpenDocument(ctx, uri)
 	if document != nil {
 		s.provideDiagnostics(ctx, store, document)
-- 
2.43.0


From 22e33a11ae20f7a44cf67419b25392f8cfe63dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:56 +0000
Subject: [PATCH 31/69] fix: do not replace a document that was opened while
 its file was read

---
 analysis/store.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/analysis/store.go b/analysis/store.go
index 9198fb4..7c74a2b 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -324,7 +324,12 @@ func (s *Store) GetOrCreateDocument(ctx context.Context, uri protocol.DocumentUR
 			return nil
 		}
 		document = NewDocument(uri, data)
-		s.SaveDocOnStore(document)
+		if !s.documents.SetIfAbsent(uri, document) {
+			// it has been opened while the file was read
+			if value, ok := s.documents.Get(uri); ok {
+				document = value.(*Document)
+			}
+		}
 	} else {
 		document = value.(*Document)
 	}
-- 
2.43.0


From 15fe9f83eb2780a3084d6137fd60d2ca29297853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:52 +0000
Subject: [PATCH 32/69] fix: a function or constant of the namespace hides the
 global one

An unqualified name refers to the function or the constant of the current
namespace, and to the global one only when there is none; a qualified name
never falls back, and imports do not affect fully qualified names.
---
 analysis/importTable.go | 92 +++++++++++++++--------------------------
 1 file changed, 34 insertions(+), 58 deletions(-)

diff --git a/analysis/importTable.go b/analysis/importTable.go
index 6bd91dd..7413335 100644
--- a/analysis/importTable.go
+++ b/analysis/importTable.go
@@ -97,77 +97,53 @@ func (i ImportTable) GetClassReferenceFQN(name TypeString) string {
 	return name.GetFQN()
 }
 
-func (i ImportTable) GetFunctionReferenceFQN(q *Query, name TypeString) string {
+// candidates returns the fully qualified names that the name of a function or a constant
+// can refer to, the one that takes precedence comes first
+func (i ImportTable) candidates(aliases map[string]*importItem, name TypeString) []string {
+	if IsFQN(name.GetFQN()) {
+		// imports do not affect fully qualified names
+		return []string{name.GetFQN()}
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
-	aliasTable := i.functions
 	if len(parts) > 0 {
-		aliasTable = i.classes
+		aliases = i.classes
 	}
-
-	if item, ok := aliasTable[firstPart]; ok {
-		return item.qualify(parts)
+	if item, ok := aliases[firstPart]; ok {
+		return []string{item.qualify(parts)}
 	}
-	fqn := name.GetFQN()
-	if !IsFQN(fqn) {
-		fqn = "\\" + fqn
+	global := "\\" + name.GetFQN()
+	name.SetNamespace(i.GetNamespace())
+	if len(parts) > 0 || name.GetFQN() == global {
+		return []string{name.GetFQN()}
 	}
-	functions := q.GetFunctions(fqn)
-	if len(functions) > 0 {
-		return fqn
+	// only unqualified names fall back to the global one
+	return []string{name.GetFQN(), global}
+}
+
+func (i ImportTable) GetFunctionReferenceFQN(q *Query, name TypeString) string {
+	fqns := i.FunctionPossibleFQNs(name)
+	for _, fqn := range fqns {
+		if len(q.GetFunctions(fqn)) > 0 {
+			return fqn
+		}
 	}
-	name.SetNamespace(i.GetNamespace())
-	return name.GetFQN()
+	return fqns[0]
 }
 
 func (i ImportTable) FunctionPossibleFQNs(name TypeString) []string {
-	firstPart, parts := name.GetFirstAndRestParts()
-	aliasTable := i.functions
-	if len(parts) > 0 {
-		aliasTable = i.classes
-	}
-	results := []string{}
-	if item, ok := aliasTable[firstPart]; ok {
-		results = append(results, item.qualify(parts))
-		return results
-	}
-	fqn := name.GetFQN()
-	if !IsFQN(fqn) {
-		fqn = "\\" + fqn
-	}
-	results = append(results, fqn)
-	name.SetNamespace(i.GetNamespace())
-	if name.GetFQN() != fqn {
-		results = append(results, name.GetFQN())
-	}
-	return results
+	return i.candidates(i.functions, name)
 }
 
 func (i ImportTable) GetConstReferenceFQN(q *Query, name TypeString) string {
-	firstPart, parts := name.GetFirstAndRestParts()
-	aliasTable := i.constants
-	if len(parts) > 0 {
-		aliasTable = i.classes
-	}
-
-	if item, ok := aliasTable[firstPart]; ok {
-		return item.qualify(parts)
-	}
-	fqn := name.GetFQN()
-	if !IsFQN(fqn) {
-		fqn = "\\" + fqn
-	}
-	constants := q.GetConsts(fqn)
-	if len(constants) > 0 {
-		return fqn
-	}
-	// TODO: Defines do not have implicit namespace except
-	// explicitly stated, e.g. define(__NAMESPACE__ . '\const1', true)
-	defines := q.GetDefines(fqn)
-	if len(defines) > 0 {
-		return fqn
+	fqns := i.candidates(i.constants, name)
+	for _, fqn := range fqns {
+		// TODO: Defines do not have implicit namespace except
+		// explicitly stated, e.g. define(__NAMESPACE__ . '\const1', true)
+		if len(q.GetConsts(fqn)) > 0 || len(q.GetDefines(fqn)) > 0 {
+			return fqn
+		}
 	}
-	name.SetNamespace(i.GetNamespace())
-	return name.GetFQN()
+	return fqns[0]
 }
 
 func (i ImportTable) ResolveToQualified(document *Document, symbol Symbol, name TypeString, word string) (string, *protocol.TextEdit) {
-- 
2.43.0


From 600dc909badead407e000f1e2215cf263fa715a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:13 +0000
Subject: [PATCH 33/69] fix: fully qualified names do not use an import

A call of \foo() was counted as a use of the imported function foo, so the
import was not reported as unused.
---
 analysis/importTable.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/analysis/importTable.go b/analysis/importTable.go
index 7413335..789c79e 100644
--- a/analysis/importTable.go
+++ b/analysis/importTable.go
@@ -225,6 +225,9 @@ func (i *ImportTable) useConstant(name string) {
 }
 
 func (i *ImportTable) useFunctionOrClass(name TypeString) {
+	if strings.HasPrefix(name.GetFQN(), "\\") {
+		return
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
 	if len(parts) > 0 {
 		i.useClass(firstPart)
@@ -234,6 +237,9 @@ func (i *ImportTable) useFunctionOrClass(name TypeString) {
 }
 
 func (i *ImportTable) useConstOrClass(name TypeString) {
+	if strings.HasPrefix(name.GetFQN(), "\\") {
+		return
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
 	if len(parts) > 0 {
 		i.useClass(firstPart)
-- 
2.43.0


From 110a2017e96392afce45ee5e0bd834fb276324be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:20 +0000
Subject: [PATCH 34/69] fix: resolve a function call with the imports of its
 own namespace

The types of a call were looked up with the imports of the last namespace of
the file, whichever namespace the call is in.
---
 analysis/functionCall.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/analysis/functionCall.go b/analysis/functionCall.go
index 554803e..c7797a5 100644
--- a/analysis/functionCall.go
+++ b/analysis/functionCall.go
@@ -79,7 +79,7 @@ func (s *FunctionCall) Resolve(ctx ResolveContext) {
 	q := ctx.query
 	s.hasResolved = true
 	typeString := NewTypeString(s.Name)
-	functions := q.GetFunctions(document.currImportTable().GetFunctionReferenceFQN(ctx.query, typeString))
+	functions := q.GetFunctions(document.ImportTableAtPos(s.Location.Range.Start).GetFunctionReferenceFQN(ctx.query, typeString))
 	for _, function := range functions {
 		s.Type.merge(function.returnTypes)
 	}
@@ -94,7 +94,7 @@ func (s *FunctionCall) ResolveToHasParams(ctx ResolveContext) []HasParams {
 	typeString := NewTypeString(s.Name)
 	q := ctx.query
 	document := ctx.document
-	typeString.SetFQN(document.currImportTable().GetFunctionReferenceFQN(q, typeString))
+	typeString.SetFQN(document.ImportTableAtPos(s.Location.Range.Start).GetFunctionReferenceFQN(q, typeString))
 	for _, function := range q.GetFunctions(typeString.GetFQN()) {
 		functions = append(functions, function)
 	}
-- 
2.43.0


From f0efdec4690719a15c0cd4c3c16a286759cd7511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:31 +0000
Subject: [PATCH 35/69] fix: import functions and constants of a mixed group

Each item of use A\{function f, const C, D} can say what it imports, all of
them were imported as classes.
---
 analysis/use.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/analysis/use.go b/analysis/use.go
index e1948eb..f27a2e8 100644
--- a/analysis/use.go
+++ b/analysis/use.go
@@ -95,6 +95,7 @@ func processNamespaceUseGroupClauseList(document *Document, prefix string, useTy
 
 				name := ""
 				alias := ""
+				clauseType := useType
 				child = traverser.Advance()
 				for child != nil {
 					if p, ok = child.(*phrase.Phrase); ok {
@@ -104,11 +105,18 @@ func processNamespaceUseGroupClauseList(document *Document, prefix string, useTy
 						case phrase.NamespaceAliasingClause:
 							alias = getAliasFromNode(document, p)
 						}
+					} else if t, ok := child.(*lexer.Token); ok {
+						switch t.Type {
+						case lexer.Function:
+							clauseType = UseFunction
+						case lexer.Const:
+							clauseType = UseConst
+						}
 					}
 					child = traverser.Advance()
 				}
 				name = prefix + "\\" + name
-				addUseToImportTable(document, useType, alias, name, document.NodeRange(p))
+				addUseToImportTable(document, clauseType, alias, name, document.NodeRange(p))
 
 				traverser, err = traverser.Ascend()
 				if err != nil {
-- 
2.43.0


From 1f75e34fbbca54268e127f9b0321cd6eb9f84f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:41 +0000
Subject: [PATCH 36/69] fix: index the rest of a changed folder when a part of
 it cannot be read

---
 internal/lsp/sync.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/sync.go b/internal/lsp/sync.go
index 3d3b3ed..e3b41c6 100644
--- a/internal/lsp/sync.go
+++ b/internal/lsp/sync.go
@@ -87,7 +87,9 @@ func (s *Server) didChangeWatchedFiles(ctx context.Context, params *protocol.Did
 
 			err = filepath.WalkDir(filePath, func(path string, d fs.DirEntry, err error) error {
 				if err != nil {
-					return err
+					// what cannot be read is skipped
+					log.Printf("didChangeWatchedFiles error: %v", err)
+					return nil
 				}
 				if !d.IsDir() && strings.HasSuffix(path, ".php") {
 					wg.Add(1)
-- 
2.43.0


From 3c3081205f9ab24e995902b321e13d4db2f0750f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:53 +0000
Subject: [PATCH 37/69] fix: look at all accessed types before leaving a member
 out

---
 analysis/query.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/analysis/query.go b/analysis/query.go
index 539527b..a3ca2c4 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -238,7 +238,6 @@ func IsInheritedStatic(currentClass string, access MemberAccess, relationMap Rel
 		}
 		if relationMap.IsRelated(memberScopeFQN, fqn) {
 			isRelated = true
-			break
 		}
 	}
 	return isSameClass || (isRelated && visibility == Protected)
@@ -268,7 +267,6 @@ func IsInherited(currentClass string, access MemberAccess, relationMap RelationM
 		}
 		if relationMap.IsRelated(memberScopeFQN, fqn) {
 			isRelated = true
-			break
 		}
 	}
 	return isSameClass || (isRelated && visibility == Protected)
-- 
2.43.0


From 3f030876bc867422518a8e3f69adeb59953fd35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:00 +0000
Subject: [PATCH 38/69] fix: resolve the names of extended interfaces when they
 are indexed

---
 analysis/interface.go | 12 ++++++++++++
 analysis/store.go     |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/analysis/interface.go b/analysis/interface.go
index 812ca58..95ccef1 100644
--- a/analysis/interface.go
+++ b/analysis/interface.go
@@ -96,6 +96,18 @@ func (s *Interface) extends(document *Document, node *phrase.Phrase) {
 	}
 }
 
+// resolveExtends resolves the names of the extended interfaces, which are as they
+// are written until the interface is indexed
+func (s *Interface) resolveExtends(document *Document) {
+	if len(s.Extends) == 0 {
+		return
+	}
+	importTable := document.ImportTableAtPos(s.location.Range.Start)
+	for i := range s.Extends {
+		s.Extends[i].SetFQN(importTable.GetClassReferenceFQN(s.Extends[i]))
+	}
+}
+
 func (s *Interface) GetLocation() protocol.Location {
 	return s.location
 }
diff --git a/analysis/store.go b/analysis/store.go
index 7c74a2b..7b73e3f 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -522,6 +522,9 @@ func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, doc
 	var referenceEntryInfos []entryInfo
 	var documentSymbols []documentSymbol
 	tra.traverseDocument(document, func(tra *traverser, child Symbol, _ []Symbol) {
+		if theInterface, ok := child.(*Interface); ok {
+			theInterface.resolveExtends(document)
+		}
 		if ser, ok := child.(serialisable); ok {
 			key := ser.GetKey()
 			if key == "" {
-- 
2.43.0


From 81a8c0b4fbb77e7a6c5d46a6530e8c6ab3366443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:40 +0000
Subject: [PATCH 39/69] fix: store the visibility of class constants

---
 analysis/classConst.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/analysis/classConst.go b/analysis/classConst.go
index c4036d4..44ea320 100644
--- a/analysis/classConst.go
+++ b/analysis/classConst.go
@@ -149,17 +149,19 @@ func (s *ClassConst) Serialise(e *storage.Encoder) {
 	e.WriteString(s.Name)
 	e.WriteString(s.Value)
 	s.Scope.Write(e)
+	e.WriteInt(int(s.VisibilityModifier))
 	serialiseDeprecatedTag(e, s.deprecatedTag)
 }
 
 func ReadClassConst(d *storage.Decoder) *ClassConst {
 	return &ClassConst{
-		location:      d.ReadLocation(),
-		description:   d.ReadString(),
-		Name:          d.ReadString(),
-		Value:         d.ReadString(),
-		Scope:         ReadTypeString(d),
-		deprecatedTag: deserialiseDeprecatedTag(d),
+		location:           d.ReadLocation(),
+		description:        d.ReadString(),
+		Name:               d.ReadString(),
+		Value:              d.ReadString(),
+		Scope:              ReadTypeString(d),
+		VisibilityModifier: VisibilityModifierValue(d.ReadInt()),
+		deprecatedTag:      deserialiseDeprecatedTag(d),
 	}
 }
 
-- 
2.43.0


From 7e58f4e6ac4c702eff20b7a3fd1117ef5d320400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:19 +0000
Subject: [PATCH 40/69] fix: survive nodes without tokens

---
 analysis/function.go       |  3 +--
 analysis/insertUse.go      |  8 ++++++--
 analysis/method.go         |  3 +--
 internal/lsp/completion.go | 10 ++++++----
 util/parser.go             | 17 +++++++++++++----
 5 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/analysis/function.go b/analysis/function.go
index 787efb0..10ec480 100644
--- a/analysis/function.go
+++ b/analysis/function.go
@@ -46,8 +46,7 @@ func newFunction(a analyser, document *Document, node *phrase.Phrase) Symbol {
 					function.applyPhpDoc(document, *phpDoc)
 				}
 				for _, param := range function.Params {
-					lastToken := util.LastToken(p)
-					variableTable.add(a, param.ToVariable(), document.positionAt(lastToken.Offset+lastToken.Length), true)
+					variableTable.add(a, param.ToVariable(), document.NodeRange(p).End, true)
 				}
 			case phrase.FunctionDeclarationBody:
 				scanForChildren(a, document, p)
diff --git a/analysis/insertUse.go b/analysis/insertUse.go
index a24948a..8aee542 100644
--- a/analysis/insertUse.go
+++ b/analysis/insertUse.go
@@ -60,8 +60,9 @@ func (i InsertUseContext) GetInsertAfterNode() *phrase.Phrase {
 func (i InsertUseContext) GetInsertPosition() (protocol.Position, bool) {
 	afterNode := i.GetInsertAfterNode()
 	if afterNode != nil {
-		lastToken := util.LastToken(afterNode)
-		return i.document.positionAt(lastToken.Offset + lastToken.Length), true
+		if lastToken := util.LastToken(afterNode); lastToken != nil {
+			return i.document.positionAt(lastToken.Offset + lastToken.Length), true
+		}
 	}
 	return protocol.Position{}, false
 }
@@ -105,6 +106,9 @@ func (i InsertUseContext) GetUseEdit(typeString TypeString, symbol Symbol, alias
 
 func getIndentation(document *Document, node *phrase.Phrase) string {
 	firstToken := util.FirstToken(node)
+	if firstToken == nil {
+		return ""
+	}
 	tokenStartPosition := document.positionAt(firstToken.Offset)
 	startOffset := document.OffsetAtPosition(protocol.Position{
 		Line:      tokenStartPosition.Line,
diff --git a/analysis/method.go b/analysis/method.go
index c1b199b..38bb20d 100644
--- a/analysis/method.go
+++ b/analysis/method.go
@@ -77,8 +77,7 @@ func (s *Method) analyseMethodNode(a analyser, document *Document, node *phrase.
 					s.applyPhpDoc(document, *phpDoc)
 				}
 				for _, param := range s.Params {
-					lastToken := util.LastToken(p)
-					variableTable.add(a, param.ToVariable(), document.positionAt(lastToken.Offset+lastToken.Length), true)
+					variableTable.add(a, param.ToVariable(), document.NodeRange(p).End, true)
 				}
 			case phrase.MethodDeclarationBody:
 				scanForChildren(a, document, p)
diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 6eaf627..c0fd80c 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -137,10 +137,12 @@ func (s *Server) completion(ctx context.Context, params *protocol.CompletionPara
 		parent := nodes.Parent()
 		switch parent.Type {
 		case phrase.ClassConstantAccessExpression, phrase.ScopedCallExpression:
-			symbol := document.HasTypesAt(util.FirstToken(&parent).Offset)
-			if s, ok := symbol.(*analysis.ClassAccess); ok {
-				s.Resolve(resolveCtx)
-				completionList = scopedAccessCompletion(completionCtx, word, fromHasTypes(s))
+			if firstToken := util.FirstToken(&parent); firstToken != nil {
+				symbol := document.HasTypesAt(firstToken.Offset)
+				if s, ok := symbol.(*analysis.ClassAccess); ok {
+					s.Resolve(resolveCtx)
+					completionList = scopedAccessCompletion(completionCtx, word, fromHasTypes(s))
+				}
 			}
 		}
 	case phrase.PropertyAccessExpression:
diff --git a/util/parser.go b/util/parser.go
index 3e0afe1..bb2241e 100644
--- a/util/parser.go
+++ b/util/parser.go
@@ -13,8 +13,13 @@ func FirstToken(node phrase.AstNode) *lexer.Token {
 	if e, ok := node.(*phrase.ParseError); ok {
 		return e.Unexpected
 	}
-	if p, ok := node.(*phrase.Phrase); ok && len(p.Children) != 0 {
-		return FirstToken(p.Children[0])
+	if p, ok := node.(*phrase.Phrase); ok {
+		// children can be empty, e.g. the list of an incomplete declaration
+		for _, child := range p.Children {
+			if t := FirstToken(child); t != nil {
+				return t
+			}
+		}
 	}
 	return nil
 }
@@ -27,8 +32,12 @@ func LastToken(node phrase.AstNode) *lexer.Token {
 	if e, ok := node.(*phrase.ParseError); ok {
 		return e.Unexpected
 	}
-	if p, ok := node.(*phrase.Phrase); ok && len(p.Children) != 0 {
-		return LastToken(p.Children[len(p.Children)-1])
+	if p, ok := node.(*phrase.Phrase); ok {
+		for i := len(p.Children) - 1; i >= 0; i-- {
+			if t := LastToken(p.Children[i]); t != nil {
+				return t
+			}
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 13096ebf83c8ab4492dd5d99fce3b5a9610ea918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:25 +0000
Subject: [PATCH 41/69] fix: survive a closing bracket at the start of a type

---
 analysis/symbolType.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/symbolType.go b/analysis/symbolType.go
index a64ef82..3a829fd 100644
--- a/analysis/symbolType.go
+++ b/analysis/symbolType.go
@@ -66,7 +66,7 @@ func (t *TypeString) MarshalJSON() ([]byte, error) {
 func (t TypeString) resolveRawWithArrayLevel() TypeString {
 	o := t.original
 	for i := len(o) - 1; i >= 0; i -= 2 {
-		if o[i] != ']' || o[i-1] != '[' {
+		if i == 0 || o[i] != ']' || o[i-1] != '[' {
 			t.original = o[:i+1]
 			break
 		}
-- 
2.43.0


From e6475718e1745fbec184c5386804eb1198fbfcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:31 +0000
Subject: [PATCH 42/69] fix: survive URIs that are not paths

---
 util/uri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/uri.go b/util/uri.go
index 44fedda..6ed67f8 100644
--- a/util/uri.go
+++ b/util/uri.go
@@ -69,7 +69,7 @@ func GetURIID(uri string) string {
 		return hash
 	}
 	parts := strings.Split(u.Path, "/")
-	if parts[len(parts)-1] == "" {
+	if len(parts) > 1 && parts[len(parts)-1] == "" {
 		parts = parts[:len(parts)-1]
 	}
 	parts, lastPart := parts[:len(parts)-1], parts[len(parts)-1]
-- 
2.43.0


From f5292452473a80f72ed536b8f958889b361b2f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:37 +0000
Subject: [PATCH 43/69] fix: compute the line table from the whole text of an
 edit

---
 analysis/document.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 7520b31..cd221d6 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -582,24 +582,9 @@ func (s *Document) ApplyChanges(changes []protocol.TextDocumentContentChangeEven
 		newText := append(s.text[:0:0], s.text[0:startOffset]...)
 		newText = append(newText, text...)
 		newText = append(newText, s.text[endOffset:]...)
-		s.text = newText
-
-		min := start.Line + 1
-		if min > len(s.lineOffsets) {
-			min = len(s.lineOffsets)
-		}
-		newLineOffsets := append(s.lineOffsets[:0:0], s.lineOffsets[0:min]...)
-		lengthDiff := len(text) - (endOffset - startOffset)
-		offsets, eol := calculateLineOffsets(text, startOffset)
-		s.detectedEOL = eol
-		newLineOffsets = append(newLineOffsets, offsets[1:]...)
-		if end.Line+1 < len(s.lineOffsets) {
-			endLineOffsets := s.lineOffsets[end.Line+1:]
-			for _, endLineOffset := range endLineOffsets {
-				newLineOffsets = append(newLineOffsets, endLineOffset+lengthDiff)
-			}
-		}
-		s.lineOffsets = newLineOffsets
+		// line breaks can be joined or split where the text is replaced, and
+		// the line endings are those of the whole text
+		s.SetText(newText)
 	}
 	util.TimeTrack(start, "contentChanges")
 	start = time.Now()
-- 
2.43.0


From e97990cc94bee2c3c46f4fab2a620a730809fd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:21 +0000
Subject: [PATCH 44/69] fix: members after an anonymous class belong to the
 class around it

---
 analysis/document.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index cd221d6..c85526f 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -363,10 +363,17 @@ func (s *Document) pushVariable(a analyser, variable *Variable, pos protocol.Pos
 // Even though the name indicates class but actually this will also
 // return interface and trait
 func (s *Document) getLastClass() Symbol {
-	if len(s.classStack) == 0 {
-		return nil
+	for i := len(s.blockStack) - 1; i >= 0; i-- {
+		switch v := s.blockStack[i].(type) {
+		case *Class:
+			return v
+		case *Interface:
+			return v
+		case *Trait:
+			return v
+		}
 	}
-	return s.classStack[len(s.classStack)-1]
+	return nil
 }
 
 // ClassAt returns a class, interface or trait at the position
-- 
2.43.0


From 6689cfd228088c9dd9cf9937d8931ecdbb135446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:28 +0000
Subject: [PATCH 45/69] fix: look for the innermost class around a position

---
 analysis/document.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index c85526f..3604a1b 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -423,18 +423,21 @@ func (s *Document) GetClassScopeAtSymbol(symbol Symbol) string {
 		return v.Name.GetFQN()
 	case *Interface:
 		return v.Name.GetFQN()
+	case *Trait:
+		return v.Name.GetFQN()
 	}
 	return ""
 }
 
 func (s *Document) getClassAtPos(pos protocol.Position) Symbol {
-	index := sort.Search(len(s.classStack), func(i int) bool {
-		return protocol.IsInRange(pos, s.classStack[i].GetLocation().Range) <= 0
-	})
-	if index >= len(s.classStack) {
-		return nil
+	// Classes are in the order of where they start, so the last one around the
+	// position is the innermost
+	for i := len(s.classStack) - 1; i >= 0; i-- {
+		if protocol.IsInRange(pos, s.classStack[i].GetLocation().Range) == 0 {
+			return s.classStack[i]
+		}
 	}
-	return s.classStack[index]
+	return nil
 }
 
 func (s *Document) NodeSpineAt(offset int) util.NodeStack {
-- 
2.43.0


From 74923e3ff64070e12d53ff4cdcf3e4908c9e2a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:26 +0000
Subject: [PATCH 46/69] fix: send an empty list when there are no completions

---
 internal/lsp/completion.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index c0fd80c..1792ebd 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -185,6 +185,7 @@ func variableCompletion(ctx *completionContext, resolveCtx analysis.ResolveConte
 	varTable := ctx.doc.GetVariableTableAt(ctx.pos)
 	completionList := &protocol.CompletionList{
 		IsIncomplete: true,
+		Items:        []protocol.CompletionItem{},
 	}
 	if varTable == nil {
 		return completionList
@@ -217,6 +218,7 @@ func variableCompletion(ctx *completionContext, resolveCtx analysis.ResolveConte
 func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word string) *protocol.CompletionList {
 	completionList := &protocol.CompletionList{
 		IsIncomplete: true,
+		Items:        []protocol.CompletionItem{},
 	}
 	store := ctx.query.Store()
 	opts := baseSearchOptions()
@@ -298,6 +300,7 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 func classCompletion(ctx *completionContext, word string) *protocol.CompletionList {
 	completionList := &protocol.CompletionList{
 		IsIncomplete: false,
+		Items:        []protocol.CompletionItem{},
 	}
 	store := ctx.query.Store()
 	classes, searchResult := store.SearchClasses(word, baseSearchOptions())
@@ -323,6 +326,7 @@ func classCompletion(ctx *completionContext, word string) *protocol.CompletionLi
 func scopedAccessCompletion(ctx *completionContext, word string, access analysis.MemberAccess) *protocol.CompletionList {
 	completionList := &protocol.CompletionList{
 		IsIncomplete: false,
+		Items:        []protocol.CompletionItem{},
 	}
 	currentClass := ctx.doc.GetClassScopeAtSymbol(access)
 	var (
@@ -375,6 +379,7 @@ func scopedAccessCompletion(ctx *completionContext, word string, access analysis
 func memberAccessCompletion(ctx *completionContext, word string, access analysis.MemberAccess) *protocol.CompletionList {
 	completionList := &protocol.CompletionList{
 		IsIncomplete: false,
+		Items:        []protocol.CompletionItem{},
 	}
 	currentClass := ctx.doc.GetClassScopeAtSymbol(access)
 	var (
@@ -416,6 +421,7 @@ func memberAccessCompletion(ctx *completionContext, word string, access analysis
 func typeCompletion(ctx *completionContext, word string) *protocol.CompletionList {
 	completionList := &protocol.CompletionList{
 		IsIncomplete: true,
+		Items:        []protocol.CompletionItem{},
 	}
 	opts := baseSearchOptions()
 	store := ctx.query.Store()
@@ -464,6 +470,7 @@ func typeCompletion(ctx *completionContext, word string) *protocol.CompletionLis
 func keywordCompletion(ctx *completionContext, word string) *protocol.CompletionList {
 	completionList := &protocol.CompletionList{
 		IsIncomplete: false,
+		Items:        []protocol.CompletionItem{},
 	}
 	return completionList
 }
@@ -471,6 +478,7 @@ func keywordCompletion(ctx *completionContext, word string) *protocol.Completion
 func phpTagCompletion(word string) *protocol.CompletionList {
 	completionList := &protocol.CompletionList{
 		IsIncomplete: false,
+		Items:        []protocol.CompletionItem{},
 	}
 	completion := "php"
 	word = strings.ToLower(word)
@@ -491,6 +499,7 @@ func useCompletion(ctx *completionContext, word string) *protocol.CompletionList
 	t.SetNamespace("")
 	completionList := &protocol.CompletionList{
 		IsIncomplete: false,
+		Items:        []protocol.CompletionItem{},
 	}
 	opts := baseSearchOptions()
 	store := ctx.query.Store()
@@ -519,6 +528,7 @@ func useCompletion(ctx *completionContext, word string) *protocol.CompletionList
 func interfaceCompletion(ctx *completionContext, word string) *protocol.CompletionList {
 	completionList := &protocol.CompletionList{
 		IsIncomplete: false,
+		Items:        []protocol.CompletionItem{},
 	}
 	opts := baseSearchOptions()
 	store := ctx.query.Store()
@@ -535,6 +545,7 @@ func interfaceCompletion(ctx *completionContext, word string) *protocol.Completi
 func traitCompletion(ctx *completionContext, word string) *protocol.CompletionList {
 	completionList := &protocol.CompletionList{
 		IsIncomplete: false,
+		Items:        []protocol.CompletionItem{},
 	}
 	opts := baseSearchOptions()
 	store := ctx.query.Store()
-- 
2.43.0


From e0168c4b084adc30ff7db26d865f45aba3b06126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:21 +0000
Subject: [PATCH 47/69] fix: find the interface and its methods that a static
 access names

---
 internal/lsp/definition.go | 6 ++++++
 internal/lsp/hover.go      | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/internal/lsp/definition.go b/internal/lsp/definition.go
index 7d42dd4..bec39be 100644
--- a/internal/lsp/definition.go
+++ b/internal/lsp/definition.go
@@ -42,6 +42,9 @@ func (s *Server) definition(ctx context.Context, params *protocol.DefinitionPara
 			for _, theClass := range q.GetClasses(document.ImportTableAtPos(pos).GetClassReferenceFQN(typeString)) {
 				locations = append(locations, theClass.GetLocation())
 			}
+			for _, theInterface := range q.GetInterfaces(document.ImportTableAtPos(pos).GetClassReferenceFQN(typeString)) {
+				locations = append(locations, theInterface.GetLocation())
+			}
 		}
 	case *analysis.InterfaceAccess:
 		for _, typeString := range v.Type.Resolve() {
@@ -92,6 +95,9 @@ func (s *Server) definition(ctx context.Context, params *protocol.DefinitionPara
 			for _, class := range q.GetClasses(scopeType.GetFQN()) {
 				ms.Merge(q.GetClassMethods(class, v.Name, ms.SearchedFQNs))
 			}
+			for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
+				ms.Merge(q.GetInterfaceMethods(theInterface, v.Name, ms.SearchedFQNs))
+			}
 			methods = analysis.MergeMethodWithScope(methods, ms.ReduceStatic(currentClass, v))
 		}
 		for _, m := range methods {
diff --git a/internal/lsp/hover.go b/internal/lsp/hover.go
index 5108848..86c207f 100644
--- a/internal/lsp/hover.go
+++ b/internal/lsp/hover.go
@@ -128,6 +128,9 @@ func (s *Server) hover(ctx context.Context, params *protocol.HoverParams) (*prot
 			for _, class := range q.GetClasses(scopeType.GetFQN()) {
 				ms.Merge(q.GetClassMethods(class, v.Name, ms.SearchedFQNs))
 			}
+			for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
+				ms.Merge(q.GetInterfaceMethods(theInterface, v.Name, ms.SearchedFQNs))
+			}
 			methods = analysis.MergeMethodWithScope(methods, ms.ReduceStatic(currentClass, v))
 		}
 		if len(methods) > 0 {
-- 
2.43.0


From 1b4acb1fd003cca4171e8434215546b2e810f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:23 +0000
Subject: [PATCH 48/69] fix: find the methods of a trait that are called on it

---
 analysis/methodAccess.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/analysis/methodAccess.go b/analysis/methodAccess.go
index f093da5..3199e53 100644
--- a/analysis/methodAccess.go
+++ b/analysis/methodAccess.go
@@ -65,6 +65,11 @@ func (s *MethodAccess) Resolve(ctx ResolveContext) {
 				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), s.Scope))
 			}
 		}
+		for _, trait := range q.GetTraits(scopeType.GetFQN()) {
+			for _, m := range q.GetTraitMethods(trait, s.Name).ReduceAccess(currentClass, s) {
+				s.Type.merge(resolveMemberTypes(m.Method.GetReturnTypes(), s.Scope))
+			}
+		}
 	}
 	s.hasResolved = true
 }
@@ -86,6 +91,9 @@ func (s *MethodAccess) ResolveToHasParams(ctx ResolveContext) []HasParams {
 		for _, intf := range q.GetInterfaces(typeString.GetFQN()) {
 			methods = append(methods, q.GetInterfaceMethods(intf, s.Name, nil).ReduceAccess(currentClass, s)...)
 		}
+		for _, trait := range q.GetTraits(typeString.GetFQN()) {
+			methods = append(methods, q.GetTraitMethods(trait, s.Name).ReduceAccess(currentClass, s)...)
+		}
 		for _, m := range methods {
 			hasParams = append(hasParams, m.Method)
 		}
-- 
2.43.0


From b4b7129a59a09cdc17a1e63bbff43bbadbe73470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:24 +0000
Subject: [PATCH 49/69] fix: tell when an inherited class constant or a method
 of an interface is deprecated

---
 analysis/diagnostic.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/analysis/diagnostic.go b/analysis/diagnostic.go
index 0b1bb0f..dd59db4 100644
--- a/analysis/diagnostic.go
+++ b/analysis/diagnostic.go
@@ -210,13 +210,22 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 				}
 			}
 		case *ScopedConstantAccess:
+			currentClass := ctx.document.GetClassScopeAtSymbol(v)
 		LScopedConstant:
 			for _, scopeType := range v.ResolveAndGetScope(ctx).Resolve() {
-				for _, c := range q.GetClassConsts(scopeType.GetFQN(), v.Name) {
-					if c.deprecatedTag != nil {
+				// constants can be inherited
+				ccs := EmptyInheritedClassConst()
+				for _, class := range q.GetClasses(scopeType.GetFQN()) {
+					ccs.Merge(q.GetClassClassConsts(class, v.Name, ccs.SearchedFQNs))
+				}
+				for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
+					ccs.Merge(q.GetInterfaceClassConsts(theInterface, v.Name, ccs.SearchedFQNs))
+				}
+				for _, c := range ccs.ReduceStatic(currentClass, v) {
+					if c.Const.deprecatedTag != nil {
 						diagnostics = append(diagnostics, create(
 							v.Location.Range,
-							deprecatedDescription(c.ReferenceFQN()+" is deprecated", c.deprecatedTag),
+							deprecatedDescription(c.Const.ReferenceFQN()+" is deprecated", c.Const.deprecatedTag),
 						))
 						break LScopedConstant
 					}
@@ -240,6 +249,20 @@ func DeprecatedDiagnostics(ctx ResolveContext) []protocol.Diagnostic {
 						}
 					}
 				}
+				for _, theInterface := range q.GetInterfaces(scopeType.GetFQN()) {
+					for _, m := range q.GetInterfaceMethods(theInterface, v.Name, nil).ReduceStatic(currentClass, v) {
+						if m.Method == nil {
+							continue
+						}
+						if m.Method.deprecatedTag != nil {
+							diagnostics = append(diagnostics, create(
+								v.Location.Range,
+								deprecatedDescription(m.Method.ReferenceFQN()+" is deprecated", m.Method.deprecatedTag),
+							))
+							break LScopedMethod
+						}
+					}
+				}
 			}
 		case *ScopedPropertyAccess:
 			currentClass := ctx.document.GetClassScopeAtSymbol(v)
-- 
2.43.0


From dd4756442ca25359323c5537cdee1fe0fdf8546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:26 +0000
Subject: [PATCH 50/69] fix: debounce the deprecations of each document on its
 own

---
 analysis/store.go           | 18 ++++++++++++++----
 internal/lsp/diagnostics.go |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 7b73e3f..517a9ec 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -119,8 +119,9 @@ type Store struct {
 	documents cmap.ConcurrentMap
 	isClosed  bool
 
-	syncedDocumentURIs   cmap.ConcurrentMap
-	DebouncedDeprecation func(func())
+	syncedDocumentURIs cmap.ConcurrentMap
+	// debounced functions by document
+	debounced cmap.ConcurrentMap
 }
 
 func readDocumentSymbols(greb *pogreb.DB, e *entry, fn func(documentSymbol) bool) {
@@ -238,12 +239,21 @@ func NewStore(fs protocol.FS, uri protocol.DocumentURI, storePath string) (*Stor
 		stubbers:  stubbers,
 		documents: cmap.New(),
 
-		syncedDocumentURIs:   cmap.New(),
-		DebouncedDeprecation: debounce.New(2 * time.Second),
+		syncedDocumentURIs: cmap.New(),
+		debounced:          cmap.New(),
 	}
 	return store, nil
 }
 
+// DebouncedDeprecation calls f when it is not called again for the same
+// document for a while
+func (s *Store) DebouncedDeprecation(uri protocol.DocumentURI, f func()) {
+	s.debounced.SetIfAbsent(uri, debounce.New(2*time.Second))
+	if value, ok := s.debounced.Get(uri); ok {
+		value.(func(func()))(f)
+	}
+}
+
 // Close triggers close on the fuzzy engine, and closes the disk storage
 func (s *Store) Close() {
 	if s.isClosed {
diff --git a/internal/lsp/diagnostics.go b/internal/lsp/diagnostics.go
index 80e0bb4..c468b74 100644
--- a/internal/lsp/diagnostics.go
+++ b/internal/lsp/diagnostics.go
@@ -12,7 +12,7 @@ import (
 func (s *Server) provideDiagnostics(ctx context.Context, store *analysis.Store, document *analysis.Document) {
 	diagnostics := analysis.GetParserDiagnostics(document)
 	diagnostics = append(diagnostics, analysis.UnusedDiagnostics(document)...)
-	store.DebouncedDeprecation(func() {
+	store.DebouncedDeprecation(document.GetURI(), func() {
 		ctx = xcontext.Detach(ctx)
 		params := &protocol.PublishDiagnosticsParams{
 			URI: document.GetURI(),
-- 
2.43.0


From 256aef3ec08c89d65252e1f09cbb0d12eb9533c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:58 +0000
Subject: [PATCH 51/69] fix: encode the path of a file once in its URI

---
 internal/lsp/workspaceStore.go | 15 +----------
 util/uri.go                    | 47 +++++++++++++++-------------------
 2 files changed, 21 insertions(+), 41 deletions(-)

diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index d7b360c..19c08c3 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -52,14 +52,7 @@ func newWorkspaceStore(ctx context.Context, server *Server) *workspaceStore {
 
 func (s *workspaceStore) newCreator(id int) {
 	for job := range s.createJobs {
-		uri, err := util.DecodeURIFromQuery(job.uri)
-		if err != nil {
-			log.Printf("workspaceStore.getStore cannot DecodeURIFromQuery %s, err: %v", job.uri, err)
-			if job.waitGroup != nil {
-				job.waitGroup.Done()
-			}
-			continue
-		}
+		uri := job.uri
 		store := s.getStore(uri)
 		if store == nil {
 			if job.waitGroup != nil {
@@ -81,12 +74,6 @@ func (s *workspaceStore) newCreator(id int) {
 
 func (s *workspaceStore) newDeletor(id int) {
 	for uri := range s.deleteJobs {
-		var err error
-		uri, err = util.DecodeURIFromQuery(uri)
-		if err != nil {
-			log.Printf("workspaceStore.getStore cannot DecodeURIFromQuery %s, err: %v", uri, err)
-			continue
-		}
 		store := s.getStore(uri)
 		if store == nil {
 			continue
diff --git a/util/uri.go b/util/uri.go
index 6ed67f8..b346b20 100644
--- a/util/uri.go
+++ b/util/uri.go
@@ -4,7 +4,6 @@ import (
 	"crypto/md5"
 	"encoding/hex"
 	"errors"
-	"fmt"
 	"io"
 	"net/url"
 	"strings"
@@ -21,13 +20,10 @@ func URIToPath(uri string) (string, error) {
 	if urlIns.Scheme != "file" {
 		return "", errors.New("cannot convert non-file URI")
 	}
-	filePath, err := url.QueryUnescape(urlIns.Path)
+	// the parser has decoded it
+	filePath := urlIns.Path
 
-	if err != nil {
-		return "", err
-	}
-
-	if strings.Contains(filePath, ":") {
+	if hasDriveLetter(filePath) {
 		filePath = strings.TrimPrefix(filePath, "/")
 		filePath = strings.Replace(filePath, "/", "\\", -1)
 	}
@@ -35,27 +31,37 @@ func URIToPath(uri string) (string, error) {
 	return filePath, nil
 }
 
+// hasDriveLetter checks if the path of a URI starts with a drive, e.g. /c:/
+func hasDriveLetter(path string) bool {
+	if len(path) < 3 || path[0] != '/' || path[2] != ':' || len(path) > 3 && path[3] != '/' {
+		return false
+	}
+	letter := path[1] | 0x20
+	return letter >= 'a' && letter <= 'z'
+}
+
+// escapePart encodes a part of a path
+func escapePart(part string) string {
+	return strings.Replace(url.QueryEscape(part), "+", "%20", -1)
+}
+
 // PathToURI converts file path to URI
 func PathToURI(path string) string {
-	urlIns := new(url.URL)
 	path = strings.Replace(strings.Trim(path, "/"), "\\", "/", -1)
 	parts := strings.Split(path, "/")
 	first, parts := parts[0], parts[1:]
 
 	if !strings.HasSuffix(first, ":") {
-		first = url.QueryEscape(first)
+		first = escapePart(first)
 	}
 
 	tempParts := parts[:0]
 	for _, part := range parts {
-		tempParts = append(tempParts, url.QueryEscape(part))
+		tempParts = append(tempParts, escapePart(part))
 	}
 	parts = append([]string{first}, tempParts...)
 
-	urlIns.Scheme = "file"
-	urlIns.Path = "/" + strings.Join(parts, "/")
-
-	return urlIns.String()
+	return "file:///" + strings.Join(parts, "/")
 }
 
 // GetURIID shortens the URI but still readable
@@ -109,16 +115,3 @@ func IsURINavigatable(uri string) bool {
 	// e.g. FTP, HTTP or other storage providers
 	return strings.HasPrefix(uri, "file://")
 }
-
-func DecodeURIFromQuery(uri string) (string, error) {
-	uri, err := url.QueryUnescape(uri)
-	if err != nil {
-		return "", fmt.Errorf("workspaceStore.getStore cannot QueryUnescape %s, err: %v", uri, err)
-	}
-	u, err := url.Parse(uri)
-	if err != nil {
-		return "", fmt.Errorf("workspaceStore.getStore cannot Parse %s, err: %v", uri, err)
-	}
-	uri = u.String()
-	return uri, nil
-}
-- 
2.43.0


From 263cff7b8c645778824eadafc887d173aa24ad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:39 +0000
Subject: [PATCH 52/69] fix: find the references of a property that has a
 default value

---
 internal/lsp/reference.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index cabc4e0..d3836db 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -62,8 +62,9 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 			fallbackHandler()
 		}
 	case phrase.PropertyElement:
+		nameToken := nodes.Token()
 		ref := "."
-		ref += document.GetNodeText(&parent)
+		ref += document.GetNodeText(&nameToken)
 		results = append(results, store.GetReferences(ref)...)
 	case phrase.ClassDeclarationHeader,
 		phrase.InterfaceDeclarationHeader,
-- 
2.43.0


From 8c014a51eddc5ec65f0bc7cc7453105a8119b73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:39 +0000
Subject: [PATCH 53/69] fix: references of a declared function are not those of
 the global one

---
 internal/lsp/reference.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index d3836db..fb37dfd 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -77,11 +77,9 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 	case phrase.FunctionDeclarationHeader:
 		nameToken := nodes.Token()
 		name := analysis.NewTypeString(document.GetNodeText(&nameToken))
-		refs := document.ImportTableAtPos(document.NodeRange(nameToken).Start).FunctionPossibleFQNs(name)
-		for _, ref := range refs {
-			ref += "()"
-			results = append(results, store.GetReferences(ref)...)
-		}
+		name.SetNamespace(document.ImportTableAtPos(document.NodeRange(nameToken).Start).GetNamespace())
+		ref := name.GetFQN() + "()"
+		results = append(results, store.GetReferences(ref)...)
 	default:
 		fallbackHandler()
 	}
-- 
2.43.0


From 0cb17ca60e899907269fc2be4ae75ada969643f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:39 +0000
Subject: [PATCH 54/69] fix: list each reference once

---
 internal/lsp/reference.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/lsp/reference.go b/internal/lsp/reference.go
index fb37dfd..d84485c 100644
--- a/internal/lsp/reference.go
+++ b/internal/lsp/reference.go
@@ -43,8 +43,15 @@ func (s *Server) references(ctx context.Context, params *protocol.ReferenceParam
 	fallbackHandler := func() {
 		sym := document.HasTypesAtPos(pos)
 		refs := analysis.SymToRefs(document, sym)
+		// the same name can be indexed under more than one of the references
+		seen := make(map[protocol.Location]struct{})
 		for _, ref := range refs {
-			results = append(results, store.GetReferences(ref)...)
+			for _, location := range store.GetReferences(ref) {
+				if _, ok := seen[location]; !ok {
+					seen[location] = struct{}{}
+					results = append(results, location)
+				}
+			}
 		}
 	}
 	switch parent.Type {
-- 
2.43.0


From fe61e3b4e43f45893b4b69d21445ef97d7706da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:39 +0000
Subject: [PATCH 55/69] fix: a nullable type names the same class as the type
 itself

---
 analysis/typeDeclaration.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/analysis/typeDeclaration.go b/analysis/typeDeclaration.go
index 1c4d590..66fb319 100644
--- a/analysis/typeDeclaration.go
+++ b/analysis/typeDeclaration.go
@@ -1,6 +1,8 @@
 package analysis
 
 import (
+	"strings"
+
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
@@ -18,7 +20,7 @@ func newTypeDeclaration(document *Document, node *phrase.Phrase) *TypeDeclaratio
 		},
 	}
 	if node.Type == phrase.TypeDeclaration {
-		typeString := transformQualifiedName(node, document)
+		typeString := NewTypeString(trimNullable(document.GetNodeText(node)))
 		typeDeclaration.Name = typeString.GetOriginal()
 		typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
 		typeDeclaration.Type.add(typeString)
@@ -41,6 +43,11 @@ func newTypeDeclaration(document *Document, node *phrase.Phrase) *TypeDeclaratio
 	return typeDeclaration
 }
 
+// trimNullable removes the question mark of a nullable type
+func trimNullable(text string) string {
+	return strings.TrimLeft(text, "? \t\r\n")
+}
+
 func (s *TypeDeclaration) GetLocation() protocol.Location {
 	return s.Location
 }
-- 
2.43.0


From c0e5491a17610a849bd825220cabcdf546294f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:55 +0000
Subject: [PATCH 56/69] fix: self and parent as types are the class itself and
 its parent

---
 analysis/typeDeclaration.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/analysis/typeDeclaration.go b/analysis/typeDeclaration.go
index 66fb319..a8f6e78 100644
--- a/analysis/typeDeclaration.go
+++ b/analysis/typeDeclaration.go
@@ -22,6 +22,14 @@ func newTypeDeclaration(document *Document, node *phrase.Phrase) *TypeDeclaratio
 	if node.Type == phrase.TypeDeclaration {
 		typeString := NewTypeString(trimNullable(document.GetNodeText(node)))
 		typeDeclaration.Name = typeString.GetOriginal()
+		if IsNameRelative(typeDeclaration.Name) {
+			typeDeclaration.Type.merge(newRelativeScope(document, typeDeclaration.Location).Types)
+			return typeDeclaration
+		}
+		if IsNameParent(typeDeclaration.Name) {
+			typeDeclaration.Type.merge(newParentScope(document, typeDeclaration.Location).Types)
+			return typeDeclaration
+		}
 		typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
 		typeDeclaration.Type.add(typeString)
 		return typeDeclaration
-- 
2.43.0


From fad9012b1d43066429d14d2f8346303eebe9ee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:04 +0000
Subject: [PATCH 57/69] fix: analyse what stands in all kinds of statements and
 expressions

---
 analysis/symbolBlock.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/analysis/symbolBlock.go b/analysis/symbolBlock.go
index 74f4d3d..3ae7b15 100644
--- a/analysis/symbolBlock.go
+++ b/analysis/symbolBlock.go
@@ -74,6 +74,25 @@ var /* const */ typesToScanForChildren = util.SetFromArray([]phrase.PhraseType{
 	phrase.EncapsulatedVariableList,
 	phrase.EncapsulatedVariable,
 	phrase.RequireOnceExpression,
+	phrase.RequireExpression,
+	phrase.IncludeOnceExpression,
+	phrase.PrintIntrinsic,
+	phrase.ExitIntrinsic,
+	phrase.ListIntrinsic,
+	phrase.VariadicUnpacking,
+	phrase.ExponentiationExpression,
+	phrase.BitwiseExpression,
+	phrase.ShiftExpression,
+	phrase.CoalesceExpression,
+	phrase.YieldExpression,
+	phrase.YieldFromExpression,
+	phrase.HeredocStringLiteral,
+	phrase.ShellCommandExpression,
+	phrase.FinallyClause,
+	phrase.DeclareStatement,
+	phrase.FunctionStaticDeclaration,
+	phrase.StaticVariableDeclarationList,
+	phrase.FunctionStaticInitialiser,
 	phrase.ErrorControlExpression,
 })
 
-- 
2.43.0


From c6ff7e89489fcea7c91d159593e8f8f752ac5f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:05 +0000
Subject: [PATCH 58/69] fix: analyse operands and members of accesses whatever
 they are

---
 analysis/binaryExpression.go     |  4 +++-
 analysis/classAccess.go          | 13 +++++++++++--
 analysis/classTypeDesignator.go  |  2 ++
 analysis/expression.go           | 10 ++++++++++
 analysis/functionCall.go         |  4 ++--
 analysis/memberAccess.go         |  5 ++++-
 analysis/methodAccess.go         |  3 +--
 analysis/propertyAccess.go       |  2 +-
 analysis/scopedConstantAccess.go |  1 +
 analysis/scopedMethodAccess.go   |  1 +
 analysis/scopedPropertyAccess.go |  1 +
 11 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/analysis/binaryExpression.go b/analysis/binaryExpression.go
index 4c56cf5..0a88411 100644
--- a/analysis/binaryExpression.go
+++ b/analysis/binaryExpression.go
@@ -14,6 +14,8 @@ func newInstanceOfTypeDesignator(a analyser, document *Document, node *phrase.Ph
 			switch p.Type {
 			case phrase.QualifiedName, phrase.FullyQualifiedName:
 				return newClassAccess(a, document, p), true
+			default:
+				scanOperand(a, document, p)
 			}
 		}
 		child = traverser.Advance()
@@ -30,7 +32,7 @@ func processInstanceOfExpression(a analyser, document *Document, node *phrase.Ph
 	rhs := traverser.Advance()
 	if lhs, ok1 := lhs.(*phrase.Phrase); ok1 {
 		if rhs, ok2 := rhs.(*phrase.Phrase); ok2 {
-			lhsExpr := scanForExpression(a, document, lhs)
+			lhsExpr := scanOperand(a, document, lhs)
 			rhsExpr := scanForExpression(a, document, rhs)
 			if v, ok := lhsExpr.(*Variable); ok && rhsExpr != nil {
 				v.Type.merge(rhsExpr.GetTypes())
diff --git a/analysis/classAccess.go b/analysis/classAccess.go
index cfb2753..86e1f15 100644
--- a/analysis/classAccess.go
+++ b/analysis/classAccess.go
@@ -34,8 +34,8 @@ func newClassAccess(a analyser, document *Document, node *phrase.Phrase) *ClassA
 			typeString := transformQualifiedName(node, document)
 			typeString.SetFQN(document.currImportTable().GetClassReferenceFQN(typeString))
 			types.add(typeString)
-		case phrase.SimpleVariable:
-			expr := scanForExpression(a, document, node)
+		default:
+			expr := scanOperand(a, document, node)
 			if expr != nil {
 				classAccess.Scope = expr
 			}
@@ -45,6 +45,15 @@ func newClassAccess(a analyser, document *Document, node *phrase.Phrase) *ClassA
 	return classAccess
 }
 
+// scanMemberName analyses the expressions by which a member is named
+func scanMemberName(a analyser, document *Document, node *phrase.Phrase) {
+	for _, child := range node.Children {
+		if p, ok := child.(*phrase.Phrase); ok {
+			scanNode(a, document, p)
+		}
+	}
+}
+
 func analyseMemberName(document *Document, node *phrase.Phrase) string {
 	if node.Type == phrase.ScopedMemberName {
 		return document.getPhraseText(node)
diff --git a/analysis/classTypeDesignator.go b/analysis/classTypeDesignator.go
index fc1e6ba..3058fea 100644
--- a/analysis/classTypeDesignator.go
+++ b/analysis/classTypeDesignator.go
@@ -59,6 +59,8 @@ func (s *ClassTypeDesignator) analyseNode(a analyser, document *Document, node *
 				if variable, ok := newVariable(a, document, p, false); ok {
 					document.addSymbol(variable)
 				}
+			default:
+				scanOperand(a, document, p)
 			}
 		}
 		child = traverser.Advance()
diff --git a/analysis/expression.go b/analysis/expression.go
index d1855f5..60e7f65 100644
--- a/analysis/expression.go
+++ b/analysis/expression.go
@@ -104,6 +104,16 @@ func scanForExpression(a analyser, document *Document, node *phrase.Phrase) HasT
 	return expression
 }
 
+// scanOperand analyses a part of an expression, whatever it is, and returns it
+// if its types are known
+func scanOperand(a analyser, document *Document, node *phrase.Phrase) HasTypes {
+	if _, ok := nodeTypeToExprConstructor[node.Type]; ok {
+		return scanForExpression(a, document, node)
+	}
+	scanNode(a, document, node)
+	return nil
+}
+
 type derivedExpression struct {
 	Expression
 	children    []Symbol
diff --git a/analysis/functionCall.go b/analysis/functionCall.go
index c7797a5..5e1ca4b 100644
--- a/analysis/functionCall.go
+++ b/analysis/functionCall.go
@@ -48,8 +48,8 @@ func newFunctionCall(a analyser, document *Document, node *phrase.Phrase) (HasTy
 	child := traverser.Advance()
 	firstChild := child
 	if firstChild != nil {
-		if p, ok := firstChild.(*phrase.Phrase); ok && p.Type == phrase.SimpleVariable {
-			scanForExpression(a, document, p)
+		if p, ok := firstChild.(*phrase.Phrase); ok {
+			scanOperand(a, document, p)
 		}
 		functionCall.Location = document.GetNodeLocation(firstChild)
 		functionCall.Name = document.GetNodeText(firstChild)
diff --git a/analysis/memberAccess.go b/analysis/memberAccess.go
index 935f5a4..77d8fff 100644
--- a/analysis/memberAccess.go
+++ b/analysis/memberAccess.go
@@ -10,7 +10,7 @@ import (
 func readMemberName(a analyser, document *Document, traverser *util.Traverser) (string, protocol.Location) {
 	next := traverser.Peek()
 	location := protocol.Location{}
-	for nextToken, ok := next.(*lexer.Token); ok && (nextToken.Type == lexer.Whitespace || nextToken.Type == lexer.Arrow); {
+	for nextToken, ok := next.(*lexer.Token); ok && (nextToken.Type == lexer.Whitespace || nextToken.Type == lexer.Comment || nextToken.Type == lexer.Arrow); {
 		if nextToken.Type == lexer.Arrow {
 			location.Range.Start = document.positionAt(nextToken.Offset + nextToken.Length)
 			location.Range.End = location.Range.Start
@@ -35,6 +35,9 @@ func readMemberName(a analyser, document *Document, traverser *util.Traverser) (
 				}
 				return name, location
 			}
+			if p, ok := child.(*phrase.Phrase); ok {
+				scanNode(a, document, p)
+			}
 		}
 	} else if t, ok := memberName.(*lexer.Token); ok && t.Type == lexer.Name {
 		location = document.GetNodeLocation(t)
diff --git a/analysis/methodAccess.go b/analysis/methodAccess.go
index 3199e53..99a800b 100644
--- a/analysis/methodAccess.go
+++ b/analysis/methodAccess.go
@@ -23,12 +23,11 @@ func newMethodAccess(a analyser, document *Document, node *phrase.Phrase) (HasTy
 	traverser := util.NewTraverser(node)
 	firstChild := traverser.Advance()
 	if p, ok := firstChild.(*phrase.Phrase); ok {
-		expression := scanForExpression(a, document, p)
+		expression := scanOperand(a, document, p)
 		if expression != nil {
 			methodAccess.Scope = expression
 		}
 	}
-	traverser.Advance()
 	methodAccess.Name, methodAccess.Location = readMemberName(a, document, traverser)
 	document.addSymbol(methodAccess)
 	child := traverser.Advance()
diff --git a/analysis/propertyAccess.go b/analysis/propertyAccess.go
index 05fc09b..9979663 100644
--- a/analysis/propertyAccess.go
+++ b/analysis/propertyAccess.go
@@ -24,7 +24,7 @@ func newPropertyAccess(a analyser, document *Document, node *phrase.Phrase) (Has
 	traverser := util.NewTraverser(node)
 	firstChild := traverser.Advance()
 	if p, ok := firstChild.(*phrase.Phrase); ok {
-		expression := scanForExpression(a, document, p)
+		expression := scanOperand(a, document, p)
 		if expression != nil {
 			propertyAccess.Scope = expression
 		}
diff --git a/analysis/scopedConstantAccess.go b/analysis/scopedConstantAccess.go
index 84df739..b2df511 100644
--- a/analysis/scopedConstantAccess.go
+++ b/analysis/scopedConstantAccess.go
@@ -32,6 +32,7 @@ func newScopedConstantAccess(a analyser, document *Document, node *phrase.Phrase
 	constantAccess.Location = document.GetNodeLocation(thirdChild)
 	if p, ok := thirdChild.(*phrase.Phrase); ok {
 		constantAccess.Name = analyseMemberName(document, p)
+		scanMemberName(a, document, p)
 	}
 	return constantAccess, true
 }
diff --git a/analysis/scopedMethodAccess.go b/analysis/scopedMethodAccess.go
index f2c77c9..719da52 100644
--- a/analysis/scopedMethodAccess.go
+++ b/analysis/scopedMethodAccess.go
@@ -34,6 +34,7 @@ func newScopedMethodAccess(a analyser, document *Document, node *phrase.Phrase)
 	methodAccess.Location = document.GetNodeLocation(thirdChild)
 	if p, ok := thirdChild.(*phrase.Phrase); ok {
 		methodAccess.Name = analyseMemberName(document, p)
+		scanMemberName(a, document, p)
 	}
 	document.addSymbol(methodAccess)
 	child := traverser.Advance()
diff --git a/analysis/scopedPropertyAccess.go b/analysis/scopedPropertyAccess.go
index fa4ac7e..f926e49 100644
--- a/analysis/scopedPropertyAccess.go
+++ b/analysis/scopedPropertyAccess.go
@@ -35,6 +35,7 @@ func newScopedPropertyAccess(a analyser, document *Document, node *phrase.Phrase
 	propertyAccess.Location = document.GetNodeLocation(thirdChild)
 	if p, ok := thirdChild.(*phrase.Phrase); ok {
 		propertyAccess.Name = analyseMemberName(document, p)
+		scanMemberName(a, document, p)
 	}
 	return propertyAccess, true
 }
-- 
2.43.0


From 24d71e792b54e7b4f39b153919bc1baca20bf47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:07 +0000
Subject: [PATCH 59/69] fix: analyse collections, keys, values and single
 statements of foreach

---
 analysis/foreach.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/analysis/foreach.go b/analysis/foreach.go
index 593d554..2e02937 100644
--- a/analysis/foreach.go
+++ b/analysis/foreach.go
@@ -22,8 +22,10 @@ func analyseForeachStatement(a analyser, document *Document, node *phrase.Phrase
 				f = newForeachCollection(a, document, p)
 			case phrase.ForeachValue:
 				analyseForeachValue(a, document, f, p)
-			case phrase.CompoundStatement, phrase.StatementList:
+			case phrase.ForeachKey:
 				scanForChildren(a, document, p)
+			default:
+				scanNode(a, document, p)
 			}
 		}
 		child = traverser.Advance()
@@ -39,7 +41,7 @@ func newForeachCollection(a analyser, document *Document, node *phrase.Phrase) *
 	child := traverser.Advance()
 	for child != nil {
 		if p, ok := child.(*phrase.Phrase); ok {
-			expr := scanForExpression(a, document, p)
+			expr := scanOperand(a, document, p)
 			if expr != nil {
 				f.setExpression(expr)
 			}
@@ -60,6 +62,8 @@ func analyseForeachValue(a analyser, document *Document, f *ForeachCollection, n
 					v.setExpression(f)
 					document.addSymbol(v)
 				}
+			default:
+				scanNode(a, document, p)
 			}
 		}
 		child = traverser.Advance()
-- 
2.43.0


From 67ee10c6d0fd290427d3c1aa4e4177270d54b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:09 +0000
Subject: [PATCH 60/69] fix: analyse what is assigned once, whatever the
 operator

---
 analysis/assignment.go | 45 +++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/analysis/assignment.go b/analysis/assignment.go
index 24f8779..82c27d8 100644
--- a/analysis/assignment.go
+++ b/analysis/assignment.go
@@ -14,7 +14,7 @@ func newAssignment(a analyser, document *Document, node *phrase.Phrase) (HasType
 	haveProcessed := false
 	if p, ok := firstChild.(*phrase.Phrase); ok {
 		if p.Type == phrase.SimpleVariable {
-			analyseVariableAssignment(a, document, p, traverser.Clone(), node)
+			analyseVariableAssignment(a, document, p, node)
 			haveProcessed = true
 		}
 		if p.Type == phrase.PropertyAccessExpression {
@@ -36,20 +36,27 @@ func newAssignment(a analyser, document *Document, node *phrase.Phrase) (HasType
 	return nil, false
 }
 
-func analyseVariableAssignment(a analyser, document *Document, lhs *phrase.Phrase, traverser *util.Traverser, parent *phrase.Phrase) {
-	traverser.Advance()
-	traverser.SkipToken(lexer.Whitespace)
-	if parent.Type == phrase.CompoundAssignmentExpression {
-		traverser.SkipToken(lexer.DotEquals)
-	} else {
-		traverser.SkipToken(lexer.Equals)
-	}
-	traverser.SkipToken(lexer.Whitespace)
-	if parent.Type == phrase.ByRefAssignmentExpression {
-		traverser.SkipToken(lexer.Ampersand)
-		traverser.SkipToken(lexer.Whitespace)
+// assignedNode is what is on the right hand side of an assignment, which is the
+// last node that is not white space or a comment
+func assignedNode(node *phrase.Phrase) phrase.AstNode {
+	for i := len(node.Children) - 1; i > 0; i-- {
+		switch n := node.Children[i].(type) {
+		case *lexer.Token:
+			if n.Type == lexer.Whitespace || n.Type == lexer.Comment {
+				continue
+			}
+		case *phrase.Phrase:
+			if n.Type == phrase.DocumentComment {
+				continue
+			}
+		}
+		return node.Children[i]
 	}
-	rhs := traverser.Advance()
+	return nil
+}
+
+func analyseVariableAssignment(a analyser, document *Document, lhs *phrase.Phrase, parent *phrase.Phrase) {
+	rhs := assignedNode(parent)
 	phpDoc := document.getValidPhpDoc(document.GetNodeLocation(lhs))
 	variable := newVariableWithoutPushing(document, lhs)
 	if phpDoc != nil {
@@ -93,15 +100,13 @@ func processPropertyAccessAssignment(a analyser, document *Document, node *phras
 	if p, ok := lhs.(*phrase.Phrase); ok {
 		lhsExpr = scanForExpression(a, document, p)
 	}
-	parentTraverser.SkipToken(lexer.Whitespace)
-	parentTraverser.SkipToken(lexer.Equals)
-	parentTraverser.SkipToken(lexer.Whitespace)
-	rhs := parentTraverser.Advance()
+	rhs := assignedNode(parent)
 	if rhsP, ok := rhs.(*phrase.Phrase); ok {
-		rhsExpr = scanForExpression(a, document, rhsP)
+		rhsExpr = scanOperand(a, document, rhsP)
+	} else {
+		scanNode(a, document, rhs)
 	}
 	if rhsExpr == nil {
-		scanNode(a, document, rhs)
 		return
 	}
 	if p, ok1 := firstChild.(*phrase.Phrase); ok1 && p.Type == phrase.SimpleVariable &&
-- 
2.43.0


From 450ef01e8f8816a0a371afdfe2e5ac3f63b870f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:11 +0000
Subject: [PATCH 61/69] fix: analyse default values of parameters and values of
 constants

---
 analysis/const.go     | 1 +
 analysis/parameter.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/analysis/const.go b/analysis/const.go
index 84c0e88..1970a03 100644
--- a/analysis/const.go
+++ b/analysis/const.go
@@ -57,6 +57,7 @@ func newConst(a analyser, document *Document, node *phrase.Phrase) Symbol {
 		} else if p, ok := child.(*phrase.Phrase); ok {
 			if hasEquals {
 				constant.Value += document.getPhraseText(p)
+				scanNode(a, document, p)
 			}
 		}
 
diff --git a/analysis/parameter.go b/analysis/parameter.go
index 3619e35..453041e 100644
--- a/analysis/parameter.go
+++ b/analysis/parameter.go
@@ -54,6 +54,7 @@ func newParameter(a analyser, document *Document, node *phrase.Phrase) *Paramete
 					param.hasValue = true
 					param.Value += document.getPhraseText(p)
 				}
+				scanNode(a, document, p)
 			}
 		} else if token, ok := child.(*lexer.Token); ok {
 			switch token.Type {
-- 
2.43.0


From 2683369c05dbea45d293d657cd01874bbed24d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:13 +0000
Subject: [PATCH 62/69] fix: variables of catch clauses and static variables
 are variables

---
 analysis/symbolBlock.go |  4 ++--
 analysis/try.go         | 28 ++++++++++++++++++++++++++--
 analysis/variable.go    | 19 +++++++++++++++++--
 3 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/analysis/symbolBlock.go b/analysis/symbolBlock.go
index 3ae7b15..6e34fee 100644
--- a/analysis/symbolBlock.go
+++ b/analysis/symbolBlock.go
@@ -34,7 +34,6 @@ var /* const */ typesToScanForChildren = util.SetFromArray([]phrase.PhraseType{
 	phrase.ExpressionList,
 	phrase.TryStatement,
 	phrase.CatchClauseList,
-	phrase.CatchClause,
 	phrase.ReturnStatement,
 	phrase.ArrayCreationExpression,
 	phrase.ArrayInitialiserList,
@@ -120,7 +119,8 @@ func init() {
 		phrase.AnonymousFunctionCreationExpression: newAnonymousFunction,
 		phrase.AnonymousClassDeclaration:           newAnonymousClass,
 		phrase.DocumentComment:                     newPhpDocFromNode,
-		phrase.CatchNameList:                       processCatchNameList,
+		phrase.CatchClause:                         processCatchClause,
+		phrase.StaticVariableDeclaration:           processStaticVariable,
 	}
 }
 
diff --git a/analysis/try.go b/analysis/try.go
index b75290a..d21cecd 100644
--- a/analysis/try.go
+++ b/analysis/try.go
@@ -1,11 +1,34 @@
 package analysis
 
 import (
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/util"
 )
 
-func processCatchNameList(a analyser, document *Document, node *phrase.Phrase) Symbol {
+func processCatchClause(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	types := newTypeComposite()
+	traverser := util.NewTraverser(node)
+	for child := traverser.Advance(); child != nil; child = traverser.Advance() {
+		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.CatchNameList {
+			types.merge(processCatchNameList(a, document, p))
+			continue
+		}
+		if t, ok := child.(*lexer.Token); ok && t.Type == lexer.VariableName {
+			variable, shouldAdd := newVariable(a, document, t, false)
+			variable.Type.merge(types)
+			if shouldAdd {
+				document.addSymbol(variable)
+			}
+			continue
+		}
+		scanNode(a, document, child)
+	}
+	return nil
+}
+
+func processCatchNameList(a analyser, document *Document, node *phrase.Phrase) TypeComposite {
+	types := newTypeComposite()
 	traverser := util.NewTraverser(node)
 	for child := traverser.Advance(); child != nil; child = traverser.Advance() {
 		if p, ok := child.(*phrase.Phrase); ok {
@@ -13,8 +36,9 @@ func processCatchNameList(a analyser, document *Document, node *phrase.Phrase) S
 			case phrase.QualifiedName, phrase.FullyQualifiedName:
 				classAccess := newClassAccess(a, document, p)
 				document.addSymbol(classAccess)
+				types.merge(classAccess.GetTypes())
 			}
 		}
 	}
-	return nil
+	return types
 }
diff --git a/analysis/variable.go b/analysis/variable.go
index 2dbac7b..e215ee1 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -3,6 +3,7 @@ package analysis
 import (
 	"sort"
 
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 )
@@ -19,13 +20,13 @@ func newVariableExpression(a analyser, document *Document, node *phrase.Phrase)
 	return newVariable(a, document, node, false)
 }
 
-func newVariable(a analyser, document *Document, node *phrase.Phrase, isDeclaration bool) (*Variable, bool) {
+func newVariable(a analyser, document *Document, node phrase.AstNode, isDeclaration bool) (*Variable, bool) {
 	variable := newVariableWithoutPushing(document, node)
 	document.pushVariable(a, variable, variable.GetLocation().Range.End, isDeclaration)
 	return variable, true
 }
 
-func newVariableWithoutPushing(document *Document, node *phrase.Phrase) *Variable {
+func newVariableWithoutPushing(document *Document, node phrase.AstNode) *Variable {
 	variable := &Variable{
 		Expression: Expression{
 			Name:     document.GetNodeText(node),
@@ -42,6 +43,20 @@ func newVariableWithoutPushing(document *Document, node *phrase.Phrase) *Variabl
 	return variable
 }
 
+// processStaticVariable analyses a static variable of a function
+func processStaticVariable(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	for _, child := range node.Children {
+		if t, ok := child.(*lexer.Token); ok && t.Type == lexer.VariableName {
+			if variable, shouldAdd := newVariable(a, document, t, false); shouldAdd {
+				document.addSymbol(variable)
+			}
+			continue
+		}
+		scanNode(a, document, child)
+	}
+	return nil
+}
+
 func (s *Variable) GetLocation() protocol.Location {
 	return s.Location
 }
-- 
2.43.0


From 4a45ed63abe30cf745eb163357f81522c75a48ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:15 +0000
Subject: [PATCH 63/69] fix: a variable that is used by reference has the name
 without ampersand

---
 analysis/anonymousFunction.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/analysis/anonymousFunction.go b/analysis/anonymousFunction.go
index 2189a13..20561e6 100644
--- a/analysis/anonymousFunction.go
+++ b/analysis/anonymousFunction.go
@@ -3,6 +3,7 @@ package analysis
 import (
 	"log"
 
+	"github.com/john-nguyen09/go-phpparser/lexer"
 	"github.com/john-nguyen09/go-phpparser/phrase"
 	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
 	"github.com/john-nguyen09/phpintel/util"
@@ -91,7 +92,7 @@ func (s *AnonymousFunction) analyseUseClause(a analyser, document *Document, nod
 					for child != nil {
 						if p, ok := child.(*phrase.Phrase); ok {
 							if p.Type == phrase.AnonymousFunctionUseVariable {
-								variable, shouldAdd := newVariable(a, document, p, true)
+								variable, shouldAdd := newVariable(a, document, usedVariable(p), true)
 								prevVariableTable.add(a, variable, variable.GetLocation().Range.End, false)
 								if shouldAdd {
 									document.addSymbol(variable)
@@ -116,6 +117,16 @@ func (s *AnonymousFunction) analyseUseClause(a analyser, document *Document, nod
 	}
 }
 
+// usedVariable is the variable without the ampersand in front of it
+func usedVariable(node *phrase.Phrase) phrase.AstNode {
+	for _, child := range node.Children {
+		if t, ok := child.(*lexer.Token); ok && t.Type == lexer.VariableName {
+			return t
+		}
+	}
+	return node
+}
+
 func (s *AnonymousFunction) GetLocation() protocol.Location {
 	return s.location
 }
-- 
2.43.0


From f1795876673e671b6e2fd8f113e8219a463cd8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:17 +0000
Subject: [PATCH 64/69] fix: analyse arrow functions

---
 analysis/arrowFunction.go | 31 +++++++++++++++++++++++++++++++
 analysis/document.go      |  2 +-
 analysis/symbolBlock.go   |  1 +
 analysis/variable.go      | 30 ++++++++++++++++++++++++++++++
 4 files changed, 63 insertions(+), 1 deletion(-)
 create mode 100644 analysis/arrowFunction.go

diff --git a/analysis/arrowFunction.go b/analysis/arrowFunction.go
new file mode 100644
index 0000000..2f0729d
--- /dev/null
+++ b/analysis/arrowFunction.go
@@ -0,0 +1,31 @@
+package analysis
+
+import (
+	"github.com/john-nguyen09/go-phpparser/phrase"
+)
+
+// newArrowFunction analyses an arrow function, its parameters are its own while
+// the other variables are those around it
+func newArrowFunction(a analyser, document *Document, node *phrase.Phrase) Symbol {
+	outer := document.getCurrentVariableTable()
+	document.pushVariableTable(node)
+	variableTable := document.getCurrentVariableTable()
+	variableTable.outer = outer
+	for _, child := range node.Children {
+		p, ok := child.(*phrase.Phrase)
+		if !ok {
+			continue
+		}
+		if p.Type != phrase.ArrowFunctionHeader {
+			scanNode(a, document, p)
+			continue
+		}
+		header := &AnonymousFunction{}
+		header.analyseHeader(a, document, p, variableTable, outer)
+		for _, param := range header.Params {
+			variableTable.add(a, param.ToVariable(), document.NodeRange(p).End, true)
+		}
+	}
+	document.popVariableTable()
+	return nil
+}
diff --git a/analysis/document.go b/analysis/document.go
index 3604a1b..08859ee 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -354,7 +354,7 @@ func (s *Document) pushVariable(a analyser, variable *Variable, pos protocol.Pos
 	if currentVariable != nil {
 		variable.mergeTypesWithVariable(currentVariable)
 	}
-	if variableTable.level == 0 || variableTable.canReferenceGlobal(variable.Name) {
+	if variableTable.ownerOf(variable.Name).level == 0 || variableTable.canReferenceGlobal(variable.Name) {
 		variable.canReferenceGlobal = true
 	}
 	variableTable.add(a, variable, pos, isDeclaration)
diff --git a/analysis/symbolBlock.go b/analysis/symbolBlock.go
index 6e34fee..6ac5ee3 100644
--- a/analysis/symbolBlock.go
+++ b/analysis/symbolBlock.go
@@ -117,6 +117,7 @@ func init() {
 		phrase.GlobalDeclaration:                   newGlobalDeclaration,
 		phrase.NamespaceUseDeclaration:             processNamespaceUseDeclaration,
 		phrase.AnonymousFunctionCreationExpression: newAnonymousFunction,
+		phrase.ArrowFunctionCreationExpression:     newArrowFunction,
 		phrase.AnonymousClassDeclaration:           newAnonymousClass,
 		phrase.DocumentComment:                     newPhpDocFromNode,
 		phrase.CatchClause:                         processCatchClause,
diff --git a/analysis/variable.go b/analysis/variable.go
index e215ee1..08fa21b 100644
--- a/analysis/variable.go
+++ b/analysis/variable.go
@@ -149,6 +149,8 @@ type VariableTable struct {
 	globalDeclares map[string]bool
 	level          int
 	children       []*VariableTable
+	// outer is the table around an arrow function, which it can use as well
+	outer *VariableTable
 }
 
 func newVariableTable(locationRange protocol.Range, level int) *VariableTable {
@@ -161,6 +163,10 @@ func newVariableTable(locationRange protocol.Range, level int) *VariableTable {
 }
 
 func (vt *VariableTable) add(a analyser, variable *Variable, start protocol.Position, isDeclaration bool) {
+	if owner := vt.ownerOf(variable.Name); !isDeclaration && owner != vt {
+		owner.add(a, variable, start, isDeclaration)
+		return
+	}
 	currentVars := []contextualVariable{}
 	newCtxVar := newContextualVariable(variable, start, isDeclaration)
 	if !isDeclaration {
@@ -200,13 +206,27 @@ func (vt *VariableTable) get(name string, pos protocol.Position) *Variable {
 			return vars[index].v
 		}
 	}
+	if owner := vt.ownerOf(name); owner != vt {
+		return owner.get(name, pos)
+	}
 	return nil
 }
 
+// ownerOf returns the table that a variable with the given name belongs to
+func (vt *VariableTable) ownerOf(name string) *VariableTable {
+	if _, ok := vt.variables[name]; !ok && vt.outer != nil {
+		return vt.outer.ownerOf(name)
+	}
+	return vt
+}
+
 func (vt *VariableTable) canReferenceGlobal(name string) bool {
 	if _, ok := vt.globalDeclares[name]; ok {
 		return true
 	}
+	if owner := vt.ownerOf(name); owner != vt {
+		return owner.canReferenceGlobal(name)
+	}
 	return false
 }
 
@@ -229,6 +249,13 @@ func (vt *VariableTable) GetVariables(pos protocol.Position) []*Variable {
 			results = append(results, vars[index].v)
 		}
 	}
+	if vt.outer != nil {
+		for _, v := range vt.outer.GetVariables(pos) {
+			if _, ok := vt.variables[v.Name]; !ok {
+				results = append(results, v)
+			}
+		}
+	}
 	return results
 }
 
@@ -253,5 +280,8 @@ func (vt *VariableTable) GetContextualVariables(name string) []contextualVariabl
 	if ctxVars, ok := vt.variables[name]; ok {
 		return ctxVars
 	}
+	if owner := vt.ownerOf(name); owner != vt {
+		return owner.GetContextualVariables(name)
+	}
 	return nil
 }
-- 
2.43.0


From efdd5b3f40a1b34094a332aa6d09f3cb4d303928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:59 +0000
Subject: [PATCH 65/69] fix: return types are uses of their classes

---
 analysis/anonymousFunction.go | 2 ++
 analysis/function.go          | 2 ++
 analysis/method.go            | 2 ++
 analysis/typeDeclaration.go   | 9 +++++++++
 4 files changed, 15 insertions(+)

diff --git a/analysis/anonymousFunction.go b/analysis/anonymousFunction.go
index 20561e6..c2ed522 100644
--- a/analysis/anonymousFunction.go
+++ b/analysis/anonymousFunction.go
@@ -58,6 +58,8 @@ func (s *AnonymousFunction) analyseHeader(a analyser, document *Document, node *
 				s.analyseParameterDeclarationList(a, document, p)
 			case phrase.AnonymousFunctionUseClause:
 				s.analyseUseClause(a, document, p, variableTable, prevVariableTable)
+			case phrase.ReturnType:
+				addReturnType(document, p)
 			}
 		}
 		child = traverser.Advance()
diff --git a/analysis/function.go b/analysis/function.go
index 10ec480..decd817 100644
--- a/analysis/function.go
+++ b/analysis/function.go
@@ -76,6 +76,8 @@ func (s *Function) analyseHeader(a analyser, document *Document, node *phrase.Ph
 				s.analyseParameterDeclarationList(a, document, p)
 			case phrase.Identifier:
 				s.Name = NewTypeString(document.getPhraseText(p))
+			case phrase.ReturnType:
+				addReturnType(document, p)
 			}
 		}
 		child = traverser.Advance()
diff --git a/analysis/method.go b/analysis/method.go
index 38bb20d..2e94794 100644
--- a/analysis/method.go
+++ b/analysis/method.go
@@ -102,6 +102,8 @@ func (s *Method) analyseHeader(a analyser, document *Document, methodHeader *phr
 			case phrase.Identifier:
 				s.Name = document.getPhraseText(p)
 				s.refLocation = document.GetNodeLocation(p)
+			case phrase.ReturnType:
+				addReturnType(document, p)
 			}
 		} else if token, ok := child.(*lexer.Token); ok {
 			switch token.Type {
diff --git a/analysis/typeDeclaration.go b/analysis/typeDeclaration.go
index a8f6e78..fb1362c 100644
--- a/analysis/typeDeclaration.go
+++ b/analysis/typeDeclaration.go
@@ -51,6 +51,15 @@ func newTypeDeclaration(document *Document, node *phrase.Phrase) *TypeDeclaratio
 	return typeDeclaration
 }
 
+// addReturnType adds the type that is declared after the parameters of a function
+func addReturnType(document *Document, node *phrase.Phrase) {
+	for _, child := range node.Children {
+		if p, ok := child.(*phrase.Phrase); ok && p.Type == phrase.TypeDeclaration {
+			document.addSymbol(newTypeDeclaration(document, p))
+		}
+	}
+}
+
 // trimNullable removes the question mark of a nullable type
 func trimNullable(text string) string {
 	return strings.TrimLeft(text, "? \t\r\n")
-- 
2.43.0


From 4d47ae713a17e9383d6513f3ec5cbf5cf19ea4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:59 +0000
Subject: [PATCH 66/69] fix: only calls of define are definitions of constants

---
 analysis/functionCall.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/analysis/functionCall.go b/analysis/functionCall.go
index 5e1ca4b..aa3e510 100644
--- a/analysis/functionCall.go
+++ b/analysis/functionCall.go
@@ -15,6 +15,9 @@ type FunctionCall struct {
 }
 
 func isDefine(document *Document, node *phrase.Phrase) bool {
+	if node.Type != phrase.FunctionCallExpression {
+		return false
+	}
 	traverser := util.NewTraverser(node)
 	child := traverser.Advance()
 	for child != nil {
-- 
2.43.0


From 029019539c5f2ff861c5666206fd3edde012e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:12 +0000
Subject: [PATCH 67/69] fix: a line begins after a carriage return that ends
 the one before

---
 analysis/document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/document.go b/analysis/document.go
index 08859ee..9f15245 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -160,7 +160,7 @@ func calculateLineOffsets(text []byte, offset int) ([]int, string) {
 					stopDetectingEol = true
 				}
 			}
-			lineOffsets = append(lineOffsets, n+offset)
+			lineOffsets = append(lineOffsets, n+offset+size)
 		} else if r == '\n' {
 			lineOffsets = append(lineOffsets, n+offset+size)
 		}
-- 
2.43.0


From f93b8258080d860a0f2768bcc0280d6d028ae927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:12 +0000
Subject: [PATCH 68/69] fix: positions count UTF-16 code units and stay within
 their line

---
 analysis/document.go | 61 ++++++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 9f15245..584b694 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -24,6 +24,8 @@ type Document struct {
 	text        []byte
 	rootNode    *phrase.Phrase
 	lineOffsets []int
+	// isASCII tells whether each byte of the text is a character
+	isASCII     bool
 	loadMu      sync.Mutex
 	isOpen      bool
 	detectedEOL string
@@ -120,6 +122,25 @@ func (s *Document) GetURI() string {
 func (s *Document) SetText(text []byte) {
 	s.text = text
 	s.lineOffsets, s.detectedEOL = calculateLineOffsets(s.text, 0)
+	s.isASCII = isASCII(s.text)
+}
+
+func isASCII(text []byte) bool {
+	for _, b := range text {
+		if b >= utf8.RuneSelf {
+			return false
+		}
+	}
+	return true
+}
+
+// utf16Size is how many UTF-16 code units a character has, positions of the
+// protocol count these
+func utf16Size(r rune) int {
+	if r > 0xFFFF {
+		return 2
+	}
+	return 1
 }
 
 func (s *Document) pushImportTable(node *phrase.Phrase) {
@@ -191,30 +212,35 @@ func (s *Document) offsetAtLine(line int) int {
 
 func (s *Document) positionAt(offset int) protocol.Position {
 	line := s.lineAt(offset)
-	return protocol.Position{
+	start := s.lineOffsets[line]
+	position := protocol.Position{
 		Line:      line,
-		Character: offset - s.lineOffsets[line],
+		Character: offset - start,
 	}
+	if s.isASCII {
+		return position
+	}
+	position.Character = 0
+	for start < offset {
+		r, size := utf8.DecodeRune(s.text[start:])
+		position.Character += utf16Size(r)
+		start += size
+	}
+	return position
 }
 
 func (s *Document) OffsetAtPosition(pos protocol.Position) int {
 	offset := s.offsetAtLine(pos.Line)
-	offsetCharacter := 0
-	for i := 0; i < pos.Character; i++ {
-		_, size := utf8.DecodeRune(s.text[offset+offsetCharacter:])
-		offsetCharacter += size
-	}
-	offset += offsetCharacter
-	min := 0
-	if offset < len(s.text) {
-		min = offset
-	} else {
-		min = len(s.text)
-	}
-	if 0 > min {
-		return 0
+	// what is beyond the end of a line is at its end
+	for i := 0; i < pos.Character && offset < len(s.text); {
+		r, size := utf8.DecodeRune(s.text[offset:])
+		if r == '\n' || r == '\r' {
+			break
+		}
+		i += utf16Size(r)
+		offset += size
 	}
-	return min
+	return offset
 }
 
 // NodeRange returns the lsp range of the given node
@@ -565,6 +591,7 @@ func (s *Document) CloneForMutate() *Document {
 		uri:         s.uri,
 		text:        s.text,
 		lineOffsets: s.lineOffsets,
+		isASCII:     s.isASCII,
 		isOpen:      s.isOpen,
 		detectedEOL: s.detectedEOL,
 
-- 
2.43.0


From e998788b5be56ffed817943b2d40c2091187653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:12 +0000
Subject: [PATCH 69/69] fix: below the last line is the end of the text

---
 analysis/document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/document.go b/analysis/document.go
index 584b694..5229956 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -205,7 +205,7 @@ func (s *Document) offsetAtLine(line int) int {
 		return 0
 	}
 	if line > len(s.lineOffsets)-1 {
-		return s.lineOffsets[len(s.lineOffsets)-1]
+		return len(s.text)
 	}
 	return s.lineOffsets[line]
 }
-- 
2.43.0

