From b0b5468a62b72fbf74e92f2910fe63ebed9df673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 01/37] fix: report an unreadable or truncated database header
 instead of opening the database as empty

---
 libs/databases/infrastructure/files/application.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index fa98f11..e709b0a 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -185,10 +185,14 @@ func (app *application) retrieveReference(name string) (references.Reference, ui
 	// read the reference length in bytes:
 	refLengthBytes := make([]byte, expectedReferenceBytesLength)
 	refAmount, err := pConn.ReadAt(refLengthBytes, 0)
-	if err != nil || refAmount <= 0 {
+	if err == io.EOF && refAmount <= 0 {
 		return nil, 0, nil
 	}
 
+	if err != nil {
+		return nil, 0, err
+	}
+
 	if refAmount != expectedReferenceBytesLength {
 		str := fmt.Sprintf("%d bytes were expected to be read when reading the reference length bytes, %d actually read", expectedReferenceBytesLength, refAmount)
 		return nil, 0, errors.New(str)
-- 
2.43.0


From e947368956a8651ddf63f839c5945149fe828c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 02/37] fix: fail the commit when its data could not be written
 on the destination file

---
 libs/databases/infrastructure/files/application.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index e709b0a..7fc59cf 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -634,7 +634,7 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 			// write content on destination:
 			err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
 			if err != nil {
-				break
+				return nil, err
 			}
 
 			//update the offsets:
@@ -648,7 +648,7 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 		contentBytes := oneContent.Data()
 		err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
 		if err != nil {
-			break
+			return nil, err
 		}
 
 		// update the offset:
-- 
2.43.0


From 178d4ea2b842f10c901e6422d5f2f0b2b5be9dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 03/37] fix: copy the whole existing content on commit,
 including its last partial chunk

---
 libs/databases/infrastructure/files/application.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 7fc59cf..d6f82b7 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -614,16 +614,19 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 	readOffset := int64(context.dataOffset)
 	writeOffset := int64(writtenAmount)
 	if context.reference != nil {
-		pInfo, _ := context.pConn.Stat()
-		contentSize := pInfo.Size() - int64(context.dataOffset)
-		chunkSize := app.makeChunkSize(uint(contentSize))
+		pInfo, err := context.pConn.Stat()
+		if err != nil {
+			return nil, err
+		}
 
-		for {
+		remaining := pInfo.Size() - int64(context.dataOffset)
+		for remaining > 0 {
 			// read the file at offset:
+			chunkSize := app.makeChunkSize(uint(remaining))
 			contentBytes := make([]byte, chunkSize)
 			amountRead, err := context.pConn.ReadAt(contentBytes, readOffset)
 			if err != nil {
-				break
+				return nil, err
 			}
 
 			if chunkSize != uint(amountRead) {
@@ -640,6 +643,7 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 			//update the offsets:
 			readOffset += int64(amountRead)
 			writeOffset += int64(amountRead)
+			remaining -= int64(amountRead)
 		}
 	}
 
-- 
2.43.0


From ae2ad921c030116e30749dc3fe14aa75dcf6da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 04/37] fix: reject an invalid reference length and a zero
 chunk size instead of dividing by zero

---
 libs/databases/infrastructure/files/application.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index d6f82b7..ca63ffb 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -166,7 +166,7 @@ func (app *application) Open(name string) (*uint, error) {
 }
 
 func (app *application) makeChunkSize(length uint) uint {
-	if app.readChunkSize > length {
+	if app.readChunkSize <= 0 || app.readChunkSize > length {
 		return length
 	}
 
@@ -201,6 +201,11 @@ func (app *application) retrieveReference(name string) (references.Reference, ui
 	// convert the reference length to uint64:
 	refLength := int(binary.LittleEndian.Uint64(refLengthBytes))
 
+	if refLength <= 0 {
+		str := fmt.Sprintf("the reference length (%d) in the header of the database (name: %s) is invalid", refLength, name)
+		return nil, 0, errors.New(str)
+	}
+
 	// read the reference data:
 	refAllBytes := []byte{}
 	offset := int64(expectedReferenceBytesLength)
-- 
2.43.0


From 1a91a0ffa4e2d66cba5c73e2e167b126c7054b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 05/37] fix: never leave a moment without a database file
 during a commit

---
 libs/databases/infrastructure/files/application.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index ca63ffb..a11b39a 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -555,13 +555,7 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
-	// delete the source database:
-	err = os.Remove(sourcePath)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// rename the destination database to source:
+	// atomically replace the source database by the destination database:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
 	destinationPath := filepath.Join(app.dirPath, destinationFile)
 	err = os.Rename(destinationPath, sourcePath)
-- 
2.43.0


From 4c806f1d9530df4d19bb0821f71b1b6c78cb312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 06/37] fix: flush the destination file to disk before it
 replaces the database

---
 libs/databases/infrastructure/files/application.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index a11b39a..c103e6e 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -658,6 +658,12 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 		writeOffset += int64(len(contentBytes))
 	}
 
+	// make sure the destination is on disk before it replaces the source:
+	err = destination.Sync()
+	if err != nil {
+		return nil, err
+	}
+
 	dataOffset := uint(writtenAmount)
 	return &dataOffset, nil
 }
-- 
2.43.0


From 68e0d032db85cab734d898cff22d4c507e2e5e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 07/37] fix: never give a new context the identifier of another
 open context

---
 libs/databases/infrastructure/files/application.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index c103e6e..7dd3c08 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -34,6 +34,7 @@ type application struct {
 	bckExtension                string
 	readChunkSize               uint
 	contexts                    map[uint]*context
+	nextIdentifier              uint
 }
 
 func createApplication(
@@ -152,7 +153,7 @@ func (app *application) Open(name string) (*uint, error) {
 
 	// create the context:
 	pContext := &context{
-		identifier:  uint(len(app.contexts)),
+		identifier:  app.nextIdentifier,
 		pConn:       pConn,
 		pLock:       pLock,
 		name:        name,
@@ -161,6 +162,7 @@ func (app *application) Open(name string) (*uint, error) {
 		contentList: []contents.Content{},
 	}
 
+	app.nextIdentifier++
 	app.contexts[pContext.identifier] = pContext
 	return &pContext.identifier, nil
 }
-- 
2.43.0


From ea082fa966209be5550388496c015d97ba898b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 08/37] fix: clear the pending content once it is committed

---
 libs/databases/infrastructure/files/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 7dd3c08..a0ba04e 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -417,6 +417,7 @@ func (app *application) Commit(context uint) error {
 		app.contexts[context].reference = updatedReference
 		app.contexts[context].dataOffset = *pDataOffset
 		app.contexts[context].pConn = pConn
+		app.contexts[context].contentList = []contents.Content{}
 		return nil
 	}
 
-- 
2.43.0


From 47a5cf36941ac47233b19a85785cf4c9690d79c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 09/37] fix: close the backup file when it could not be written

---
 libs/databases/infrastructure/files/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index a0ba04e..88cca2c 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -543,6 +543,7 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 
 	_, err = io.Copy(backupPtr, context.pConn)
 	if err != nil {
+		backupPtr.Close()
 		return nil, nil, err
 	}
 
-- 
2.43.0


From 7b46759de557e04a3b24ff2d33917bbcac9e2f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 10/37] fix: keep the connection of a context usable when its
 commit fails

---
 libs/databases/infrastructure/files/application.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 88cca2c..f0e4a74 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -553,12 +553,6 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
-	// close the source connection:
-	err = context.pConn.Close()
-	if err != nil {
-		return nil, nil, err
-	}
-
 	// atomically replace the source database by the destination database:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
 	destinationPath := filepath.Join(app.dirPath, destinationFile)
@@ -579,6 +573,13 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
+	// close the previous source connection, it stays usable if anything above fails:
+	err = context.pConn.Close()
+	if err != nil {
+		pNewConn.Close()
+		return nil, nil, err
+	}
+
 	return pNewConn, pDataOffset, nil
 }
 
-- 
2.43.0


From 04aabbd488479a3b254b20df5d16f5221c3c4999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 11/37] fix: build an hashtree without any block instead of
 reading past its single leaf

---
 libs/cryptography/domain/hashtrees/builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cryptography/domain/hashtrees/builder.go b/libs/cryptography/domain/hashtrees/builder.go
index 03cf611..640f532 100644
--- a/libs/cryptography/domain/hashtrees/builder.go
+++ b/libs/cryptography/domain/hashtrees/builder.go
@@ -74,7 +74,7 @@ func (app *builder) Now() (HashTree, error) {
 		return nil, errors.New("the blocks are mandatory in order to build an HashTree instance")
 	}
 
-	if len(app.blocks) <= 1 {
+	for len(app.blocks) <= 1 {
 		app.blocks = append(app.blocks, []byte(""))
 	}
 
-- 
2.43.0


From 6467371ebb0f72d67df56f593ad0d07cd210c8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 12/37] fix: refuse to build a channel condition without
 previous nor next token

---
 libs/asts/domain/grammars/channelcondition_builder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/asts/domain/grammars/channelcondition_builder.go b/libs/asts/domain/grammars/channelcondition_builder.go
index 5742b58..368933f 100644
--- a/libs/asts/domain/grammars/channelcondition_builder.go
+++ b/libs/asts/domain/grammars/channelcondition_builder.go
@@ -1,5 +1,7 @@
 package grammars
 
+import "errors"
+
 type channelConditionBuilder struct {
 	prev Token
 	next Token
@@ -41,5 +43,9 @@ func (app *channelConditionBuilder) Now() (ChannelCondition, error) {
 		return createChannelConditionWithNext(app.next), nil
 	}
 
-	return createChannelConditionWithPrevious(app.prev), nil
+	if app.prev != nil {
+		return createChannelConditionWithPrevious(app.prev), nil
+	}
+
+	return nil, errors.New("the ChannelCondition is invalid")
 }
-- 
2.43.0


From ed30a5ec2c66c4b5cd2a0aac25fe932a1bc9f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 13/37] fix: merging leaves no longer changes the leaves it is
 called on

---
 libs/cryptography/domain/hashtrees/leaves.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/leaves.go b/libs/cryptography/domain/hashtrees/leaves.go
index 17a0a6d..07b1c47 100644
--- a/libs/cryptography/domain/hashtrees/leaves.go
+++ b/libs/cryptography/domain/hashtrees/leaves.go
@@ -24,9 +24,7 @@ func (obj *leaves) Leaves() []Leaf {
 
 // Merge merge Leaves instances
 func (obj *leaves) Merge(lves Leaves) Leaves {
-	for _, oneLeaf := range lves.Leaves() {
-		obj.list = append(obj.list, oneLeaf.(*leaf))
-	}
-
-	return obj
+	list := obj.Leaves()
+	list = append(list, lves.Leaves()...)
+	return createLeaves(list)
 }
-- 
2.43.0


From 6b262ad7f141883ad6b1c90ba6777d3a7b78a89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 14/37] fix: the suites of a table are built in a stable order

---
 instances/grammars/components/suites/suite.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/instances/grammars/components/suites/suite.go b/instances/grammars/components/suites/suite.go
index a126aef..c6d4ff1 100644
--- a/instances/grammars/components/suites/suite.go
+++ b/instances/grammars/components/suites/suite.go
@@ -1,6 +1,8 @@
 package suites
 
 import (
+	"sort"
+
 	"github.com/steve-care-software/rodkina/instances/grammars/components/composes"
 	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
 )
@@ -27,9 +29,15 @@ func createSuite(
 
 // Suites creates suites based on the values
 func (app *suite) Suites(values map[string]bool) grammars.Suites {
+	keys := []string{}
+	for str := range values {
+		keys = append(keys, str)
+	}
+
+	sort.Strings(keys)
 	list := []grammars.Suite{}
-	for str, isValid := range values {
-		suite := app.suite([]byte(str), isValid)
+	for _, str := range keys {
+		suite := app.suite([]byte(str), values[str])
 		list = append(list, suite)
 	}
 
-- 
2.43.0


From 6e90755fe712b0825635f25a8f138b15a80ffe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 15/37] fix: a query for a later unnamed element must not read
 the grammar of an element that has none

---
 libs/queries/applications/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index a6f0971..cbd5974 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -80,6 +80,7 @@ func (app *application) queryContents(query queries.Query, tree trees.Tree) ([]t
 			}
 
 			cpt++
+			continue
 		}
 
 		if oneElement.Grammar().Name() != queryElement.Name() {
-- 
2.43.0


From c3d1153e0d7e86950b7b0076c8b01e7cd29df7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 16/37] fix: a query with a single content function fails when
 there is no content instead of panicking

---
 libs/queries/applications/application.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index cbd5974..db86f4e 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -145,7 +145,7 @@ func (app *application) insideInstances(inside queries.Inside, contentList []tre
 	if inside.IsFn() {
 		fn := inside.Fn()
 		if fn.IsSingle() {
-			if len(contentList) < 0 {
+			if len(contentList) <= 0 {
 				str := fmt.Sprintf("%d content instances were expected in the Content list, %d were provided", 1, len(contentList))
 				return nil, errors.New(str)
 			}
-- 
2.43.0


From 67ebb98514772db88bb21ba332529e5956661092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:24 +0000
Subject: [PATCH 17/37] fix: the bytes of a content include the channels before
 its value when they are requested

---
 libs/asts/domain/trees/content.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/asts/domain/trees/content.go b/libs/asts/domain/trees/content.go
index 6ff43ed..8944562 100644
--- a/libs/asts/domain/trees/content.go
+++ b/libs/asts/domain/trees/content.go
@@ -32,9 +32,13 @@ func createContentInternally(
 // Bytes returns the content's bytes
 func (obj *content) Bytes(includeChannels bool) []byte {
 	if obj.IsValue() {
-		return []byte{
-			obj.Value().Content(),
+		output := []byte{}
+		value := obj.Value()
+		if includeChannels && value.HasPrefix() {
+			output = append(output, value.Prefix().Bytes(includeChannels)...)
 		}
+
+		return append(output, value.Content())
 	}
 
 	return obj.Tree().Bytes(includeChannels)
-- 
2.43.0


From 6f24f926d107558cb960206904f0bae4b2e7314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:27 +0000
Subject: [PATCH 18/37] fix: the tree of an external grammar keeps its suffix
 and the data that remains after it

---
 libs/asts/applications/application.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 8c87ccf..df21379 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -578,7 +578,16 @@ func (app *application) external(external grammars.External, isReverse bool, pre
 	}
 
 	treeBlock := treeIns.Block()
-	return app.treeBuilder.Create().WithGrammar(grammarRoot).WithBlock(treeBlock).Now()
+	treeBuilder := app.treeBuilder.Create().WithGrammar(grammarRoot).WithBlock(treeBlock)
+	if treeIns.HasSuffix() {
+		treeBuilder.WithSuffix(treeIns.Suffix())
+	}
+
+	if treeIns.HasRemaining() {
+		treeBuilder.WithRemaining(treeIns.Remaining())
+	}
+
+	return treeBuilder.Now()
 }
 
 func (app *application) block(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
-- 
2.43.0


From b1138b135682dc715111ea346502062941967657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 19/37] fix: a line with a compose matches every occurrence of
 its values

---
 libs/asts/applications/application.go | 35 ++++++++++++---------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index df21379..89e38a5 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -752,30 +752,27 @@ func (app *application) line(tokenName string, stackMap map[string]*stack, line
 			elementsList := compose.List()
 			for _, oneElement := range elementsList {
 				grValue := oneElement.Value()
-				value, rem, retStack, err := app.elementValue(tokenName, grValue, stackMap, escape, channels, isReverse, prevData, remaining)
-				if err != nil {
-					return nil, nil, nil, err
-				}
+				occurences := int(oneElement.Occurences())
+				for i := 0; i < occurences; i++ {
+					value, rem, retStack, err := app.elementValue(tokenName, grValue, currentStack, escape, channels, isReverse, previousData, remaining)
+					if err != nil {
+						return nil, nil, nil, err
+					}
 
-				contentBuilder := app.treeContentBuilder.Create()
-				if value != nil {
-					contentBuilder.WithValue(value)
-				}
+					if value == nil {
+						return nil, nil, nil, errors.New("the data does not match the compose and therefore the line is invalid")
+					}
 
-				contentIns, err := contentBuilder.Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
+					contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
+					if err != nil {
+						return nil, nil, nil, err
+					}
 
-				contentsList := []trees.Content{}
-				occurences := int(oneElement.Occurences())
-				for i := 0; i < occurences; i++ {
 					contentsList = append(contentsList, contentIns)
+					currentStack = retStack
+					previousData = remaining
+					remaining = rem
 				}
-
-				currentStack = retStack
-				previousData = remaining
-				remaining = rem
 			}
 
 			contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
-- 
2.43.0


From dddc9fd7c7b8a0a66bcc8dbff113494df4cd68a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 20/37] fix: the uncovered elements of a grammar without suites
 are all its elements

---
 libs/asts/applications/application.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 89e38a5..32e404f 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -169,9 +169,12 @@ func (app *application) Uncovered(grammar grammars.Grammar) (map[string]map[uint
 		return nil, err
 	}
 
-	coveredElements, err := app.Covered(coverages)
-	if err != nil {
-		return nil, err
+	coveredElements := map[string]map[uint]map[uint]string{}
+	if coverages != nil {
+		coveredElements, err = app.Covered(coverages)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	allElements := map[string]map[uint]map[uint]string{}
-- 
2.43.0


From e67a1d3f58116bca69a1683098f55dc7f0503a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:03 +0000
Subject: [PATCH 21/37] fix: covered elements are reported at the position of
 their container in the line

---
 libs/asts/applications/application.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 32e404f..be006cb 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -463,12 +463,19 @@ func (app *application) findCoveraredElementsFromBlock(tokenName string, block t
 
 	line := block.Successful()
 	index := line.Index()
+	containersList := line.Grammar().Containers()
+	containerIdx := 0
 	elementsList := line.Elements().List()
-	for elIdx, oneElement := range elementsList {
+	for _, oneElement := range elementsList {
 		if !oneElement.HasGrammar() {
 			continue
 		}
 
+		// containers that matched nothing have no element, so find the position of the element's container in its line:
+		for containerIdx < len(containersList) && containersList[containerIdx] != oneElement.Grammar() {
+			containerIdx++
+		}
+
 		elementName := oneElement.Grammar().Name()
 		covered := *pCovered
 		if _, ok := covered[tokenName]; !ok {
@@ -479,7 +486,8 @@ func (app *application) findCoveraredElementsFromBlock(tokenName string, block t
 			covered[tokenName][index] = map[uint]string{}
 		}
 
-		castedElIdx := uint(elIdx)
+		castedElIdx := uint(containerIdx)
+		containerIdx++
 		if _, ok := covered[tokenName][index][castedElIdx]; !ok {
 			covered[tokenName][index][castedElIdx] = elementName
 		}
-- 
2.43.0


From 6ede8000aa1694f491d7ecdddcaa493313c3091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 22/37] fix: channels leave what their tokens did not consume

---
 libs/asts/applications/application.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index be006cb..cf1ca68 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -1036,8 +1036,11 @@ func (app *application) channels(channels grammars.Channels, prevData []byte, cu
 				continue
 			}
 
-			prefixLength := len(tree.Bytes(true))
-			rem := remaining[prefixLength:]
+			rem := []byte{}
+			if tree.HasRemaining() {
+				rem = tree.Remaining()
+			}
+
 			if len(rem) == len(remaining) {
 				continue
 			}
-- 
2.43.0


From 0fc005393387c49d386342601caa53f3cb7f3068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 23/37] fix: a recursive token can be matched again after its
 first recursion

---
 libs/asts/applications/application.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index cf1ca68..20492d4 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -522,16 +522,27 @@ func (app *application) grammar(grammar grammars.Grammar, isReverse bool, prevDa
 
 func (app *application) token(token grammars.Token, stackMap map[string]*stack, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Tree, map[string]*stack, error) {
 	tokenName := token.Name()
-	if _, ok := stackMap[tokenName]; !ok {
-		stackMap[tokenName] = &stack{
-			token: token,
-			lines: map[int][]byte{},
+	current := &stack{
+		token: token,
+		lines: map[int][]byte{},
+	}
+
+	// if the token is recursive, keep the entry of its outer match and put it back afterwards:
+	previous, isRecursive := stackMap[tokenName]
+	if isRecursive {
+		for idx, data := range previous.lines {
+			current.lines[idx] = data
 		}
 	}
 
+	stackMap[tokenName] = current
 	tokenBlock := token.Block()
 	block, remaining, retStackMap, err := app.block(token, stackMap, tokenBlock, escape, channels, isReverse, prevData, currentData)
 	delete(stackMap, tokenName)
+	if isRecursive {
+		stackMap[tokenName] = previous
+	}
+
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 6e588412e9d3d297315594ce1585014b74644c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 24/37] fix: a line whose containers share a name is successful
 when each has its own match

---
 libs/asts/domain/trees/line.go | 36 +++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/libs/asts/domain/trees/line.go b/libs/asts/domain/trees/line.go
index 7af697c..e223095 100644
--- a/libs/asts/domain/trees/line.go
+++ b/libs/asts/domain/trees/line.go
@@ -87,6 +87,8 @@ func (obj *line) IsSuccessful() bool {
 		return true
 	}
 
+	// the elements are in the order of their containers, and containers can share a name:
+	from := 0
 	for _, oneContainer := range requested {
 		if oneContainer.IsElement() {
 			requestedElement := oneContainer.Element()
@@ -96,15 +98,12 @@ func (obj *line) IsSuccessful() bool {
 			}
 
 			requestedName := requestedElement.Name()
-			element, err := obj.elements.Fetch(requestedName)
-			if err != nil {
+			index := obj.indexOf(requestedName, requestedMin, from)
+			if index < 0 {
 				return false
 			}
 
-			amount := element.Amount()
-			if requestedMin > amount {
-				return false
-			}
+			from = index + 1
 		}
 
 		if oneContainer.IsCompose() {
@@ -116,17 +115,36 @@ func (obj *line) IsSuccessful() bool {
 			}
 
 			requestedName := compose.Name()
-			element, err := obj.elements.Fetch(requestedName)
-			if err != nil {
+			index := obj.indexOf(requestedName, requestedOccurences, from)
+			if index < 0 {
 				return false
 			}
 
-			amount := element.Amount()
+			amount := elements[index].Amount()
 			if amount != requestedOccurences {
 				return false
 			}
+
+			from = index + 1
 		}
 	}
 
 	return true
 }
+
+// indexOf returns the index, from the given one, of the first element that has the name and at least the amount, -1 otherwise
+func (obj *line) indexOf(name string, amount uint, from int) int {
+	list := obj.elements.List()
+	for idx := from; idx < len(list); idx++ {
+		element := list[idx]
+		if !element.HasGrammar() || element.Grammar().Name() != name {
+			continue
+		}
+
+		if element.Amount() >= amount {
+			return idx
+		}
+	}
+
+	return -1
+}
-- 
2.43.0


From 258e2a8dd565ed009c9d203fc7b5d0971fabd0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 25/37] fix: truncated contents are refused instead of
 panicking

---
 libs/databases/domain/contents/adapter.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/databases/domain/contents/adapter.go b/libs/databases/domain/contents/adapter.go
index 69ca82a..75f48cc 100644
--- a/libs/databases/domain/contents/adapter.go
+++ b/libs/databases/domain/contents/adapter.go
@@ -59,7 +59,16 @@ func (app *adapter) ToInstance(content []byte) (Contents, error) {
 		}
 
 		sizeDelimiter := 8
+		if len(remaining) < sizeDelimiter {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of a Content instance, %d provided", sizeDelimiter, len(remaining))
+			return nil, errors.New(str)
+		}
+
 		size := binary.LittleEndian.Uint64(remaining[:sizeDelimiter])
+		if size > uint64(len(remaining)-sizeDelimiter) {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to convert to a Content instance, %d provided", size, len(remaining)-sizeDelimiter)
+			return nil, errors.New(str)
+		}
 
 		contentDelimiter := sizeDelimiter + int(size)
 		contentIns, err := app.contentAdapter.ToInstance(remaining[sizeDelimiter:contentDelimiter])
-- 
2.43.0


From c29ccd46352b05d1543cbc7bdd22bdff1f10f5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 26/37] fix: content keys whose amount exceeds their bytes are
 refused instead of panicking

---
 libs/databases/domain/references/contentkeys_adapter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/databases/domain/references/contentkeys_adapter.go b/libs/databases/domain/references/contentkeys_adapter.go
index 4699e79..bbfc4ef 100644
--- a/libs/databases/domain/references/contentkeys_adapter.go
+++ b/libs/databases/domain/references/contentkeys_adapter.go
@@ -52,8 +52,14 @@ func (app *contentKeysAdapter) ToContentKeys(content []byte) (ContentKeys, error
 		return nil, errors.New(str)
 	}
 
+	amount := binary.LittleEndian.Uint64(content[:8])
+	if amount > uint64((len(content)-8)/contentKeySize) {
+		str := fmt.Sprintf("the content (%d bytes) is too small in order to contain %d ContentKey instances", len(content), amount)
+		return nil, errors.New(str)
+	}
+
 	list := []ContentKey{}
-	length := int(binary.LittleEndian.Uint64(content[:8]))
+	length := int(amount)
 	for i := 0; i < length; i++ {
 		beginsOn := 8 + (i * contentKeySize)
 		endsOn := beginsOn + contentKeySize
-- 
2.43.0


From 96e88f2c9eac9dfae7e02e3a9da97c6d9ab2a89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 27/37] fix: truncated commits are refused instead of panicking

---
 .../databases/domain/references/commits_adapter.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libs/databases/domain/references/commits_adapter.go b/libs/databases/domain/references/commits_adapter.go
index 0015a1c..da9d7e3 100644
--- a/libs/databases/domain/references/commits_adapter.go
+++ b/libs/databases/domain/references/commits_adapter.go
@@ -59,9 +59,19 @@ func (app *commitsAdapter) ToCommits(content []byte) (Commits, error) {
 			break
 		}
 
+		if amount < 8 {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of a Commit instance, %d provided", 8, amount)
+			return nil, errors.New(str)
+		}
+
 		lengthDelimiter := index + 8
-		length := int(binary.LittleEndian.Uint64(content[index:lengthDelimiter]))
-		contentDelimiter := lengthDelimiter + length
+		length := binary.LittleEndian.Uint64(content[index:lengthDelimiter])
+		if length > uint64(amount-8) {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to convert to a Commit instance, %d provided", length, amount-8)
+			return nil, errors.New(str)
+		}
+
+		contentDelimiter := lengthDelimiter + int(length)
 		ins, err := app.adapter.ToCommit(content[lengthDelimiter:contentDelimiter])
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 7c836f6b153dace754bbccfb9de7683ec3f0f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 28/37] fix: a truncated commit is refused instead of panicking

---
 libs/databases/domain/references/commit_adapter.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libs/databases/domain/references/commit_adapter.go b/libs/databases/domain/references/commit_adapter.go
index dd77eed..4944da7 100644
--- a/libs/databases/domain/references/commit_adapter.go
+++ b/libs/databases/domain/references/commit_adapter.go
@@ -84,6 +84,11 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 	valuesBytesAmountDelimiter := createdOnDelimiter + 8
 	valueBytesAmount := binary.LittleEndian.Uint64(content[createdOnDelimiter:valuesBytesAmountDelimiter])
 
+	if valueBytesAmount > uint64(contentLength-valuesBytesAmountDelimiter) {
+		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the values of the Commit instance, %d provided", valueBytesAmount, contentLength-valuesBytesAmountDelimiter)
+		return nil, errors.New(str)
+	}
+
 	valueBytesDelimiter := valuesBytesAmountDelimiter + int(valueBytesAmount)
 	values, err := app.hashTreeAdapter.ToHashTree(content[valuesBytesAmountDelimiter:valueBytesDelimiter])
 	if err != nil {
@@ -96,7 +101,16 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 		if remaining[0:1][0] == 0 {
 			remaining = remaining[1:]
 			proofBytesLengthDelimiter := 8
+			if len(remaining) < proofBytesLengthDelimiter {
+				str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the proof size of the Commit instance, %d provided", proofBytesLengthDelimiter, len(remaining))
+				return nil, errors.New(str)
+			}
+
 			proofBytesLength := binary.LittleEndian.Uint64(remaining[:proofBytesLengthDelimiter])
+			if proofBytesLength > uint64(len(remaining)-proofBytesLengthDelimiter) {
+				str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the proof of the Commit instance, %d provided", proofBytesLength, len(remaining)-proofBytesLengthDelimiter)
+				return nil, errors.New(str)
+			}
 
 			proofBytesDelimiter := proofBytesLengthDelimiter + int(proofBytesLength)
 			pProof := big.NewInt(int64(0)).SetBytes(remaining[proofBytesLengthDelimiter:proofBytesDelimiter])
-- 
2.43.0


From 847f4289a85a4b7b774c5651ea964fd7fa341b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:21 +0000
Subject: [PATCH 29/37] fix: bytes that are not a parent hash are refused
 instead of being hashed as one

---
 libs/databases/domain/references/commit_adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/databases/domain/references/commit_adapter.go b/libs/databases/domain/references/commit_adapter.go
index 4944da7..e89648f 100644
--- a/libs/databases/domain/references/commit_adapter.go
+++ b/libs/databases/domain/references/commit_adapter.go
@@ -122,6 +122,11 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 	}
 
 	if len(remaining) > 0 {
+		if remaining[0] != 1 || len(remaining) != hash.Size+1 {
+			str := fmt.Sprintf("the content (%d bytes) following the values and the proof of the Commit instance is not a parent hash", len(remaining))
+			return nil, errors.New(str)
+		}
+
 		pParentHash, err := app.hashAdapter.FromBytes(remaining[1:])
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 89c4fa0a2766a1e5081540ffb1771856861d4dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 30/37] fix: a reference whose sizes exceed its bytes is
 refused instead of panicking

---
 libs/databases/domain/references/adapter.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/libs/databases/domain/references/adapter.go b/libs/databases/domain/references/adapter.go
index a833b38..dad4447 100644
--- a/libs/databases/domain/references/adapter.go
+++ b/libs/databases/domain/references/adapter.go
@@ -61,25 +61,30 @@ func (app *adapter) ToReference(content []byte) (Reference, error) {
 
 	contentKeysBytesLengthDelimiter := uint64(8)
 	contentKeysBytesLength := binary.LittleEndian.Uint64(content[:contentKeysBytesLengthDelimiter])
-	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
-	if contentLength < contentKeysBytesDelimiter {
-		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the ContentKeys size of the Reference instance, %d provided", contentKeysBytesDelimiter, contentLength)
+	if contentKeysBytesLength > uint64(contentLength)-contentKeysBytesLengthDelimiter {
+		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the ContentKeys of the Reference instance, %d provided", contentKeysBytesLength, contentLength)
 		return nil, errors.New(str)
 	}
 
+	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
 	contentKeys, err := app.contentKeysAdapter.ToContentKeys(content[contentKeysBytesLengthDelimiter:contentKeysBytesDelimiter])
 	if err != nil {
 		return nil, err
 	}
 
 	commitBytesLengthDelimiter := uint64(contentKeysBytesDelimiter + 8)
+	if uint64(contentLength) < commitBytesLengthDelimiter {
+		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits size of the Reference instance, %d provided", commitBytesLengthDelimiter, contentLength)
+		return nil, errors.New(str)
+	}
+
 	commitBytesLength := binary.LittleEndian.Uint64(content[contentKeysBytesDelimiter:commitBytesLengthDelimiter])
-	commitBytesDelimiter := int(commitBytesLength + commitBytesLengthDelimiter)
-	if contentLength < commitBytesDelimiter {
-		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits size of the Reference instance, %d provided", commitBytesDelimiter, contentLength)
+	if commitBytesLength > uint64(contentLength)-commitBytesLengthDelimiter {
+		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits of the Reference instance, %d provided", commitBytesLength, contentLength)
 		return nil, errors.New(str)
 	}
 
+	commitBytesDelimiter := int(commitBytesLength + commitBytesLengthDelimiter)
 	commits, err := app.commitsAdapter.ToCommits(content[commitBytesLengthDelimiter:commitBytesDelimiter])
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c6a82764a8218e552fc43c1625d63aad69531bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 31/37] fix: a truncated parent leaf is refused instead of
 panicking

---
 libs/cryptography/domain/hashtrees/leaf_adapter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/cryptography/domain/hashtrees/leaf_adapter.go b/libs/cryptography/domain/hashtrees/leaf_adapter.go
index 779dec9..32cacf1 100644
--- a/libs/cryptography/domain/hashtrees/leaf_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaf_adapter.go
@@ -154,7 +154,13 @@ func (app *leafAdapter) ContentToParentLeaf(content []byte) (ParentLeaf, error)
 		return nil, errors.New(str)
 	}
 
-	leftLength := int(binary.LittleEndian.Uint64(content[:8]))
+	leftSize := binary.LittleEndian.Uint64(content[:8])
+	if leftSize > uint64(contentLength-8) {
+		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the left Leaf of the ParentLeaf instance, %d provided", leftSize, contentLength-8)
+		return nil, errors.New(str)
+	}
+
+	leftLength := int(leftSize)
 	left, err := app.ContentToLeaf(content[8 : 8+leftLength])
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 35bf84fc718bcea1d2d72b4c7667574df5ebbb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 32/37] fix: truncated leaves are refused instead of panicking

---
 .../cryptography/domain/hashtrees/leaves_adapter.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/leaves_adapter.go b/libs/cryptography/domain/hashtrees/leaves_adapter.go
index 4a93b61..dd3bf7c 100644
--- a/libs/cryptography/domain/hashtrees/leaves_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaves_adapter.go
@@ -73,9 +73,18 @@ func (app *leavesAdapter) ToLeaves(content []byte) (Leaves, error) {
 	for i := 0; i < length; i++ {
 		lengthBeginsOn := lastEndsOn
 		lengthEndsOn := lengthBeginsOn + 8
-		leafLength := int(binary.LittleEndian.Uint64(content[lengthBeginsOn:lengthEndsOn]))
+		if contentLength < lengthEndsOn {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of a Leaf instance, %d provided", lengthEndsOn, contentLength)
+			return nil, errors.New(str)
+		}
+
+		leafLength := binary.LittleEndian.Uint64(content[lengthBeginsOn:lengthEndsOn])
+		if leafLength > uint64(contentLength-lengthEndsOn) {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to convert to a Leaf instance, %d provided", leafLength, contentLength-lengthEndsOn)
+			return nil, errors.New(str)
+		}
 
-		endsOn := lengthEndsOn + leafLength
+		endsOn := lengthEndsOn + int(leafLength)
 		ins, err := app.leafAdapter.ContentToLeaf(content[lengthEndsOn:endsOn])
 		if err != nil {
 			return nil, err
-- 
2.43.0


From ee2cdd940343aa0129846a8c9167014703abb6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 33/37] fix: leaves that cannot be paired are refused instead
 of panicking

---
 libs/cryptography/domain/hashtrees/leaves_adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/cryptography/domain/hashtrees/leaves_adapter.go b/libs/cryptography/domain/hashtrees/leaves_adapter.go
index dd3bf7c..e210263 100644
--- a/libs/cryptography/domain/hashtrees/leaves_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaves_adapter.go
@@ -101,6 +101,11 @@ func (app *leavesAdapter) ToLeaves(content []byte) (Leaves, error) {
 func (app *leavesAdapter) ToHashTree(ins Leaves) (HashTree, error) {
 	list := ins.Leaves()
 	length := len(list)
+	if length < 2 || length%2 != 0 {
+		str := fmt.Sprintf("the leaves (%d) must be paired in order to build an HashTree instance", length)
+		return nil, errors.New(str)
+	}
+
 	if length == 2 {
 		left := list[0]
 		right := list[1]
-- 
2.43.0


From a60d67c8b3a23cc14efe069a9fea92089fa9c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 34/37] fix: a reference length that exceeds the database file
 is refused instead of allocated

---
 libs/databases/infrastructure/files/application.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index f0e4a74..26acdad 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -208,6 +208,16 @@ func (app *application) retrieveReference(name string) (references.Reference, ui
 		return nil, 0, errors.New(str)
 	}
 
+	pInfo, err := pConn.Stat()
+	if err != nil {
+		return nil, 0, err
+	}
+
+	if int64(refLength) > pInfo.Size()-int64(expectedReferenceBytesLength) {
+		str := fmt.Sprintf("the reference length (%d) in the header of the database (name: %s) exceeds the file (%d bytes)", refLength, name, pInfo.Size())
+		return nil, 0, errors.New(str)
+	}
+
 	// read the reference data:
 	refAllBytes := []byte{}
 	offset := int64(expectedReferenceBytesLength)
-- 
2.43.0


From ba67f09a54a829fa946f49fcb4f64a544447210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:39 +0000
Subject: [PATCH 35/37] fix: a pointer length that exceeds the database file is
 refused instead of allocated

---
 libs/databases/infrastructure/files/application.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 26acdad..4312e80 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -312,6 +312,16 @@ func (app *application) Read(context uint, pointer references.Pointer) ([]byte,
 	if pContext, ok := app.contexts[context]; ok {
 		offset := pContext.dataOffset + pointer.From()
 		length := pointer.Length()
+		pInfo, err := pContext.pConn.Stat()
+		if err != nil {
+			return nil, err
+		}
+
+		if uint64(length) > uint64(pInfo.Size()) {
+			str := fmt.Sprintf("the pointer length (%d) exceeds the database file (%d bytes)", length, pInfo.Size())
+			return nil, errors.New(str)
+		}
+
 		contentBytes := make([]byte, length)
 		refContentAmount, err := pContext.pConn.ReadAt(contentBytes, int64(offset))
 		if err != nil {
-- 
2.43.0


From bfcf0dc4a41821c45eb61753e3f12e99f960f313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 36/37] fix: the data following an escaped match can be empty
 or escaped as well

---
 libs/asts/applications/application.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 20492d4..9363bd7 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -649,6 +649,7 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 					break
 				}
 
+				isEscaped := false
 				if escape != nil {
 					escapeTree, _, err := app.token(escape, stackMap, nil, channels, false, previousData, remaining)
 					if err == nil {
@@ -673,6 +674,7 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 										contentsList = append(contentsList, contentIns)
 									}
 
+									isEscaped = len(escapeRemaining)-amount < len(remaining)
 									previousData = escapeRemaining
 									remaining = escapeRemaining[amount:]
 								}
@@ -681,6 +683,11 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 					}
 				}
 
+				// what follows an escaped match might be escaped as well, or be the end of the data:
+				if isEscaped {
+					continue
+				}
+
 				_, _, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, previousData, remaining)
 				if err == nil {
 					break
-- 
2.43.0


From cadd04cb85a3d58b5b9146515aad1dc57a600122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:20 +0000
Subject: [PATCH 37/37] fix: building a hash tree does not write its padding in
 the blocks of the caller

---
 libs/cryptography/domain/hashtrees/builder.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/builder.go b/libs/cryptography/domain/hashtrees/builder.go
index 640f532..fcbc0e7 100644
--- a/libs/cryptography/domain/hashtrees/builder.go
+++ b/libs/cryptography/domain/hashtrees/builder.go
@@ -74,12 +74,13 @@ func (app *builder) Now() (HashTree, error) {
 		return nil, errors.New("the blocks are mandatory in order to build an HashTree instance")
 	}
 
-	for len(app.blocks) <= 1 {
-		app.blocks = append(app.blocks, []byte(""))
+	blocks := append([][]byte{}, app.blocks...)
+	for len(blocks) <= 1 {
+		blocks = append(blocks, []byte(""))
 	}
 
 	hashes := []hash.Hash{}
-	for _, oneData := range app.blocks {
+	for _, oneData := range blocks {
 		oneHash, err := app.hashAdapter.FromBytes(oneData)
 		if err != nil {
 			return nil, err
-- 
2.43.0

