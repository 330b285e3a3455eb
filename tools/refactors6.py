import sys; sys.path.insert(0, "/verif/tools")
from refactor import *
D="libs/databases/domain/"
H="libs/cryptography/domain/hashtrees/"
F="libs/databases/infrastructure/files/application.go"
A="libs/asts/applications/application.go"
only=set(sys.argv[1:])
def t(name, *edits):
    if only and name not in only: return
    try_(name, edits)
t("contents-for-cond",(D+"contents/adapter.go",'''	for {
		if len(remaining) <= 0 {
			break
		}

''','''	for len(remaining) > 0 {
'''))
t("contents-helper",(D+"contents/adapter.go",'''		contentDelimiter := sizeDelimiter + int(size)
		contentIns, err := app.contentAdapter.ToInstance(remaining[sizeDelimiter:contentDelimiter])
		if err != nil {
			return nil, err
		}

		list = append(list, contentIns)
		remaining = remaining[contentDelimiter:]
''','''		remaining = remaining[sizeDelimiter:]
		contentIns, err := app.contentAdapter.ToInstance(remaining[:size])
		if err != nil {
			return nil, err
		}

		list = append(list, contentIns)
		remaining = remaining[size:]
'''))
t("contents-split",(D+"contents/adapter.go",'''		sizeDelimiter := 8
		if len(remaining) < sizeDelimiter {
			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of a Content instance, %d provided", sizeDelimiter, len(remaining))
			return nil, errors.New(str)
		}

		size := binary.LittleEndian.Uint64(remaining[:sizeDelimiter])
		if size > uint64(len(remaining)-sizeDelimiter) {
			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to convert to a Content instance, %d provided", size, len(remaining)-sizeDelimiter)
			return nil, errors.New(str)
		}

		contentDelimiter := sizeDelimiter + int(size)
		contentIns, err := app.contentAdapter.ToInstance(remaining[sizeDelimiter:contentDelimiter])
		if err != nil {
			return nil, err
		}

		list = append(list, contentIns)
		remaining = remaining[contentDelimiter:]
''','''		current, rest, err := splitContent(remaining)
		if err != nil {
			return nil, err
		}

		contentIns, err := app.contentAdapter.ToInstance(current)
		if err != nil {
			return nil, err
		}

		list = append(list, contentIns)
		remaining = rest
'''),(D+"contents/adapter.go",'''// ToInstance converts bytes to contents instance
''','''func splitContent(data []byte) ([]byte, []byte, error) {
	sizeDelimiter := 8
	if len(data) < sizeDelimiter {
		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of a Content instance, %d provided", sizeDelimiter, len(data))
		return nil, nil, errors.New(str)
	}

	size := binary.LittleEndian.Uint64(data)
	rest := data[sizeDelimiter:]
	if uint64(len(rest)) < size {
		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to convert to a Content instance, %d provided", size, len(rest))
		return nil, nil, errors.New(str)
	}

	return rest[:size], rest[size:], nil
}

// ToInstance converts bytes to contents instance
'''))
t("reference-remaining",(D+"references/adapter.go",'''	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
	contentKeys, err := app.contentKeysAdapter.ToContentKeys(content[contentKeysBytesLengthDelimiter:contentKeysBytesDelimiter])
	if err != nil {
		return nil, err
	}
''','''	end := contentKeysBytesLengthDelimiter + contentKeysBytesLength
	contentKeysBytesDelimiter := int(end)
	keysBytes := content[8:end]
	contentKeys, err := app.contentKeysAdapter.ToContentKeys(keysBytes)
	if err != nil {
		return nil, err
	}
'''))
t("reference-ints",(D+"references/adapter.go",'''	commitBytesLengthDelimiter := uint64(contentKeysBytesDelimiter + 8)
	if uint64(contentLength) < commitBytesLengthDelimiter {''','''	commitBytesLengthDelimiter := uint64(contentKeysBytesDelimiter) + 8
	if left := contentLength - contentKeysBytesDelimiter; left < 8 {'''))
t("commit-slice-first",(D+"references/commit_adapter.go",'''		if remaining[0:1][0] == 0 {
			remaining = remaining[1:]
''','''		kind := remaining[0]
		if kind == 0 {
			remaining = remaining[1:]
'''))
t("commit-helper-len",(D+"references/commit_adapter.go",'''	if valueBytesAmount > uint64(contentLength-valuesBytesAmountDelimiter) {''','''	if available := len(content[valuesBytesAmountDelimiter:]); valueBytesAmount > uint64(available) {'''))
t("commits-remaining",(D+"references/commits_adapter.go",'''		amount := len(content[index:])
		if amount <= 0 {
			break
		}
''','''		amount := len(content) - index
		if amount == 0 {
			break
		}
'''))
t("commits-for",(D+"references/commits_adapter.go",'''	for {
		amount := len(content[index:])
		if amount <= 0 {
			break
		}
''','''	for index < len(content) {
		amount := len(content) - index
'''))
t("pointer-less",(D+"references/pointer_adapter.go",'''	from := binary.LittleEndian.Uint64(content[:8])
	length := binary.LittleEndian.Uint64(content[8:])
''','''	from := binary.LittleEndian.Uint64(content)
	length := binary.LittleEndian.Uint64(content[8:16])
'''))
t("chunks-helper",(F,'''			chunkSize := app.makeChunkSize(uint(remaining))
			contentBytes := make([]byte, chunkSize)
''','''			amount := uint(remaining)
			if amount > app.readChunkSize {
				amount = app.readChunkSize
			}

			chunkSize := app.makeChunkSize(amount)
			contentBytes := make([]byte, chunkSize)
'''))
t("leaves-index",(H+"leaves.go",'''	out := []Leaf{}
	for _, oneLeaf := range obj.list {
		out = append(out, oneLeaf)
	}
''','''	out := make([]Leaf, len(obj.list))
	for i := 0; i < len(obj.list); i++ {
		out[i] = obj.list[i]
	}
'''))
t("leaves-copy-down",(H+"leaves.go",'''	out := []Leaf{}
	for _, oneLeaf := range obj.list {
		out = append(out, oneLeaf)
	}
''','''	out := make([]Leaf, len(obj.list))
	for i := len(obj.list) - 1; i >= 0; i-- {
		out[i] = obj.list[i]
	}
'''))
t("latest-guard",(D+"references/commits.go",'''	return obj.list[len(obj.list)-1]
''','''	last := len(obj.list) - 1
	return obj.list[last]
'''))
t("compose-first",(A,'''	containers := lines[0].Containers()
''','''	first := lines[0]
	containers := first.Containers()
'''))
t("compose-len-ne",(A,'''	if len(lines) > 1 {
''','''	if len(lines) != 1 {
'''))
