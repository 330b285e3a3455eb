"""Behaviour-preserving edits of the database files and of their reference."""
import sys
from refactor import try_
A="libs/databases/infrastructure/files/application.go"
only=sys.argv[1:]
def t(name,*edits):
    if not only or name in only: try_(name,list(edits))
t("ref-loop-remaining",(A,'''	chunkSize := int(app.makeChunkSize(uint(refLength)))
	amount := int((refLength / chunkSize) + 1)
	lastChunkSize := refLength - (chunkSize * (amount - 1))

	for i := 0; i < amount; i++ {
		readSize := chunkSize
		if i+1 >= amount {
			readSize = lastChunkSize
		}

		refContentBytes''','''	remaining := refLength
	for remaining > 0 {
		readSize := int(app.makeChunkSize(uint(remaining)))
		refContentBytes'''),(A,'''		offset += int64(refContentAmount)
	}

	// convert the content''','''		offset += int64(refContentAmount)
		remaining -= refContentAmount
	}

	// convert the content'''))
t("ref-single-read",(A,'''	chunkSize := int(app.makeChunkSize(uint(refLength)))
	amount := int((refLength / chunkSize) + 1)
	lastChunkSize := refLength - (chunkSize * (amount - 1))

	for i := 0; i < amount; i++ {
		readSize := chunkSize
		if i+1 >= amount {
			readSize = lastChunkSize
		}

		refContentBytes := make([]byte, readSize)
		refContentAmount, err := pConn.ReadAt(refContentBytes, offset)
		if err != nil {
			return nil, 0, err
		}

		refAllBytes = append(refAllBytes, refContentBytes...)
		offset += int64(refContentAmount)
	}
''','''	refContentBytes := make([]byte, refLength)
	refContentAmount, err := pConn.ReadAt(refContentBytes, offset)
	if err != nil {
		return nil, 0, err
	}

	refAllBytes = append(refAllBytes, refContentBytes...)
	offset += int64(refContentAmount)
'''))
t("ref-last-outside",(A,'''	for i := 0; i < amount; i++ {
		readSize := chunkSize
		if i+1 >= amount {
			readSize = lastChunkSize
		}

''','''	for i := 1; i <= amount; i++ {
		readSize := chunkSize
		if i == amount {
			readSize = lastChunkSize
		}

'''))
t("ref-size-helper",(A,'''		readSize := chunkSize
		if i+1 >= amount {
			readSize = lastChunkSize
		}

''','''		readSize := pieceSize(i, amount, chunkSize, lastChunkSize)
'''),(A,'''// ContentKeysByKind returns the''','''func pieceSize(i int, amount int, size int, last int) int {
	if i+1 < amount {
		return size
	}

	return last
}

// ContentKeysByKind returns the'''))
t("ref-len-offset",(A,'''		refAllBytes = append(refAllBytes, refContentBytes...)
		offset += int64(refContentAmount)
	}
''','''		offset += int64(len(refContentBytes))
		refAllBytes = append(refAllBytes, refContentBytes[:refContentAmount]...)
	}
'''))
t("ref-eof-order",(A,'''	if err == io.EOF && refAmount <= 0 {
		return nil, 0, nil
	}

	if err != nil {
		return nil, 0, err
	}
''','''	if err != nil {
		if refAmount == 0 && errors.Is(err, io.EOF) {
			return nil, 0, nil
		}

		return nil, 0, err
	}
'''))
t("ref-empty-by-size-not",(A,'''	refLength := int(binary.LittleEndian.Uint64(refLengthBytes))

	if refLength <= 0 {''','''	refLength := int(binary.LittleEndian.Uint64(refLengthBytes[:]))
	if !(refLength > 0) {'''))
t("copy-end-offset",(A,'''		remaining := pInfo.Size() - int64(context.dataOffset)
		for remaining > 0 {
			// read the file at offset:
			chunkSize := app.makeChunkSize(uint(remaining))''','''		end := pInfo.Size()
		for readOffset < end {
			// read the file at offset:
			chunkSize := app.makeChunkSize(uint(end - readOffset))'''),(A,'''			writeOffset += int64(amountRead)
			remaining -= int64(amountRead)
''','''			writeOffset += int64(amountRead)
'''))
t("copy-helper",(A,'''		remaining := pInfo.Size() - int64(context.dataOffset)
		for remaining > 0 {
			// read the file at offset:
			chunkSize := app.makeChunkSize(uint(remaining))
			contentBytes := make([]byte, chunkSize)
			amountRead, err := context.pConn.ReadAt(contentBytes, readOffset)
			if err != nil {
				return nil, err
			}

			if chunkSize != uint(amountRead) {
				str := fmt.Sprintf("%d bytes were expected to be read from source database, %d actually read", chunkSize, amountRead)
				return nil, errors.New(str)
			}

			// write content on destination:
			err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
			if err != nil {
				return nil, err
			}

			//update the offsets:
			readOffset += int64(amountRead)
			writeOffset += int64(amountRead)
			remaining -= int64(amountRead)
		}
	}
''','''		writeOffset, err = app.copyData(context, pInfo.Size(), readOffset, writeOffset, destination)
		if err != nil {
			return nil, err
		}
	}
'''),(A,'''func (app *application) referenceToContent(''','''func (app *application) copyData(context *context, size int64, from int64, to int64, destination *os.File) (int64, error) {
	for remaining := size - from; remaining > 0; {
		chunkSize := app.makeChunkSize(uint(remaining))
		contentBytes := make([]byte, chunkSize)
		amountRead, err := context.pConn.ReadAt(contentBytes, from)
		if err != nil {
			return 0, err
		}

		if chunkSize != uint(amountRead) {
			return 0, errors.New("the data could not be read")
		}

		err = app.saveDataOnDisk(to, contentBytes, destination)
		if err != nil {
			return 0, err
		}

		from += int64(amountRead)
		to += int64(amountRead)
		remaining -= int64(amountRead)
	}

	return to, nil
}

func (app *application) referenceToContent('''))
t("copy-chunk-local",(A,'''			chunkSize := app.makeChunkSize(uint(remaining))
			contentBytes''','''			chunkSize := uint(remaining)
			if app.readChunkSize > 0 && app.readChunkSize < chunkSize {
				chunkSize = app.readChunkSize
			}

			contentBytes'''))
t("copy-min",(A,'''	if app.readChunkSize <= 0 || app.readChunkSize > length {
		return length
	}

	return app.readChunkSize''','''	if app.readChunkSize > 0 && app.readChunkSize <= length {
		return app.readChunkSize
	}

	return length'''))
t("copy-at-once",(A,'''		remaining := pInfo.Size() - int64(context.dataOffset)
		for remaining > 0 {
			// read the file at offset:
			chunkSize := app.makeChunkSize(uint(remaining))
			contentBytes := make([]byte, chunkSize)
''','''		remaining := pInfo.Size() - int64(context.dataOffset)
		{
			// read the file at offset:
			chunkSize := uint(remaining)
			contentBytes := make([]byte, chunkSize)
'''),(A,'''			remaining -= int64(amountRead)
''',''''''))
t("write-without-seek",(A,'''	seekOffset, err := pConn.Seek(offset, 0)
	if err != nil {
		return err
	}

	if seekOffset != offset {
		str := fmt.Sprintf("the offset was expected to be %d, %d returned after file seek", offset, seekOffset)
		return errors.New(str)
	}

	// write the data on disk:
	amountWritten, err := pConn.Write(data)''','''	// write the data on disk:
	amountWritten, err := pConn.Write(data)'''))
t("write-at",(A,'''	seekOffset, err := pConn.Seek(offset, 0)
	if err != nil {
		return err
	}

	if seekOffset != offset {
		str := fmt.Sprintf("the offset was expected to be %d, %d returned after file seek", offset, seekOffset)
		return errors.New(str)
	}

	// write the data on disk:
	amountWritten, err := pConn.Write(data)''','''	// write the data on disk:
	amountWritten, err := pConn.WriteAt(data, offset)'''))
t("seek-start-name",(A,"pConn.Seek(offset, 0)","pConn.Seek(offset, io.SeekStart)"))
t("contents-index",(A,'''	for _, oneContent := range context.contentList {
		contentBytes := oneContent.Data()
		err''','''	for i := 0; i < len(context.contentList); i++ {
		contentBytes := context.contentList[i].Data()
		err'''))
t("contents-offset-first",(A,'''		contentBytes := oneContent.Data()
		err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
		if err != nil {
			return nil, err
		}

		// update the offset:
		writeOffset += int64(len(contentBytes))
''','''		contentBytes := oneContent.Data()
		at := writeOffset
		writeOffset += int64(len(contentBytes))
		err = app.saveDataOnDisk(at, contentBytes, destination)
		if err != nil {
			return nil, err
		}
'''))
t("dataoffset-early",(A,'''	writeOffset := int64(writtenAmount)
	if context''','''	writeOffset := int64(writtenAmount)
	dataOffset := uint(writeOffset)
	if context'''),(A,'''	dataOffset := uint(writtenAmount)
	return &dataOffset, nil''','''	return &dataOffset, nil'''))
t("dataoffset-len",(A,'''	dataOffset := uint(writtenAmount)
	return &dataOffset, nil''','''	dataOffset := uint(len(refData))
	return &dataOffset, nil'''))
t("refdata-append",(A,'''	data := []byte{}
	data = append(data, bytesLength...)
	return append(data, contentBytes...), nil''','''	return append(bytesLength, contentBytes...), nil'''))
t("refdata-appenduint",(A,'''	bytesLength := make([]byte, expectedReferenceBytesLength)
	binary.LittleEndian.PutUint64(bytesLength, uint64(len(contentBytes)))

	data := []byte{}
	data = append(data, bytesLength...)
	return append(data, contentBytes...), nil''','''	data := binary.LittleEndian.AppendUint64(nil, uint64(len(contentBytes)))
	return append(data, contentBytes...), nil'''))
t("refdata-two-writes",(A,'''	writtenAmount, err := destination.Write(refData)
	if err != nil {
		return nil, err
	}
''','''	writtenAmount, err := destination.Write(refData[:expectedReferenceBytesLength])
	if err != nil {
		return nil, err
	}

	more, err := destination.Write(refData[expectedReferenceBytesLength:])
	if err != nil {
		return nil, err
	}

	writtenAmount += more
'''))
t("commit-order",(A,'''		app.contexts[context].reference = updatedReference
		app.contexts[context].dataOffset = *pDataOffset
		app.contexts[context].pConn = pConn
''','''		pContext.pConn = pConn
		pContext.dataOffset = *pDataOffset
		pContext.reference = updatedReference
'''))
t("open-order",(A,'''	app.nextIdentifier++
	app.contexts[pContext.identifier] = pContext
	return''','''	app.contexts[pContext.identifier] = pContext
	app.nextIdentifier++
	return'''))
t("open-path",(A,'''	pConn, err := os.Open(path)
	if err != nil {
		return nil, err
	}

	// create a Lock instance on the path:
	pLock := fslock.New(path)
''','''	pLock := fslock.New(path)
	pConn, err := os.Open(path)
	if err != nil {
		return nil, err
	}
'''))
t("read-guard",(A,'''	if pContext, ok := app.contexts[context]; ok {
		offset := pContext.dataOffset + pointer.From()
		length := pointer.Length()''','''	pContext, ok := app.contexts[context]
	if ok {
		length := pointer.Length()
		offset := pointer.From() + pContext.dataOffset'''))
t("read-all-sized",(A,'''	output := [][]byte{}
	for _, onePointer := range pointers {
		content, err := app.Read(context, onePointer)
		if err != nil {
			return nil, err
		}

		output = append(output, content)
	}
''','''	output := make([][]byte, len(pointers))
	for i, onePointer := range pointers {
		content, err := app.Read(context, onePointer)
		if err != nil {
			return nil, err
		}

		output[i] = content
	}
'''))
t("read-hashes-via-pointers",(A,'''	for _, oneHash := range hashes {
		content, err := app.ReadByHash(context, oneHash)
		if err != nil {
			return nil, err
		}
''','''	for _, oneHash := range hashes {
		contentKey, err := app.retrieveActiveContentKeyByHash(context, oneHash)
		if err != nil {
			return nil, err
		}

		content, err := app.Read(context, contentKey.Content())
		if err != nil {
			return nil, err
		}
'''))
t("ref-early-return",(A,'''	if pContext, ok := app.contexts[context]; ok {
		if pContext.reference == nil {
			str := fmt.Sprintf("there is zero (0) Commit in the given context: %d", context)
			return nil, errors.New(str)
		}

		return pContext.reference.Commits(), nil
	}

	str := fmt.Sprintf("the given context (%d) does not exists and therefore cannot return the Commits instance", context)
	return nil, errors.New(str)''','''	pContext, ok := app.contexts[context]
	if !ok {
		str := fmt.Sprintf("the given context (%d) does not exists and therefore cannot return the Commits instance", context)
		return nil, errors.New(str)
	}

	if pContext.reference != nil {
		return pContext.reference.Commits(), nil
	}

	str := fmt.Sprintf("there is zero (0) Commit in the given context: %d", context)
	return nil, errors.New(str)'''))
t("update-one-branch",(A,'''		contentKeysList := []references.ContentKey{}
		if pContext.reference != nil {
			contentKeysList = pContext.reference.ContentKeys().List()
		}

		// save all content:
		offset := int64(0)
		if pContext.reference != nil {
			offset = pContext.reference.ContentKeys().Next()
		}
''','''		offset := int64(0)
		contentKeysList := []references.ContentKey{}
		if pContext.reference != nil {
			contentKeysList = pContext.reference.ContentKeys().List()
			offset = pContext.reference.ContentKeys().Next()
		}
'''))
t("update-helper",(A,'''			// build the content key:
			contentKey, err := app.referenceContentKeyBuilder.Create().WithHash(oneContent.Hash()).WithKind(oneContent.Kind()).WithContent(contentKeyPointer).WithCommit(commitHash).Now()
			if err''','''			// build the content key:
			contentKey, err := app.contentKey(oneContent, contentKeyPointer, commitHash)
			if err'''),(A,'''func (app *application) updateDatabaseOnFile(''','''func (app *application) contentKey(content contents.Content, pointer references.Pointer, commit hash.Hash) (references.ContentKey, error) {
	return app.referenceContentKeyBuilder.Create().
		WithCommit(commit).
		WithContent(pointer).
		WithKind(content.Kind()).
		WithHash(content.Hash()).
		Now()
}

func (app *application) updateDatabaseOnFile('''))
t("update-values-index",(A,'''		blocks := [][]byte{}
		for _, oneContent := range pContext.contentList {
			// add the hash in the blocks for the commit values:
			blocks = append(blocks, oneContent.Hash().Bytes())
		}
''','''		blocks := make([][]byte, 0, len(pContext.contentList))
		for i := range pContext.contentList {
			blocks = append(blocks, pContext.contentList[i].Hash().Bytes())
		}
'''))
t("update-offset-uint",(A,'''		offset := int64(0)
		if pContext.reference != nil {
			offset = pContext.reference.ContentKeys().Next()
		}
''','''		offset := uint(0)
		if pContext.reference != nil {
			offset = uint(pContext.reference.ContentKeys().Next())
		}
'''),(A,'''			dataLength := int64(len(oneContent.Data()))
			contentKeyPointer, err := app.referencePointerBuilder.Create().From(uint(offset)).WithLength(uint(dataLength)).Now()''','''			dataLength := uint(len(oneContent.Data()))
			contentKeyPointer, err := app.referencePointerBuilder.Create().From(offset).WithLength(dataLength).Now()'''))
t("backup-sync",(A,'''	// close the backup file:
	err = backupPtr.Close()
''','''	// flush and close the backup file:
	if err := backupPtr.Sync(); err != nil {
		backupPtr.Close()
		return nil, nil, err
	}

	err = backupPtr.Close()
'''))
t("commit-lookup-first",(A,'''	// update the reference:
	updatedReference, err := app.updateReference(context)
	if err != nil {
		return err
	}

	if pContext, ok := app.contexts[context]; ok {
''','''	if pContext, ok := app.contexts[context]; ok {
		// update the reference:
		updatedReference, err := app.updateReference(context)
		if err != nil {
			return err
		}

'''))
t("create-openfile",(A,'''	destination, err := os.Create(destinationPath)''','''	destination, err := os.OpenFile(destinationPath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)'''))
