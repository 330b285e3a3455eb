import sys; sys.path.insert(0, "/verif/tools")
from refactor import *
R="libs/databases/domain/references/"
H="libs/cryptography/domain/hashtrees/"
HS="libs/cryptography/domain/hash/"
only=set(sys.argv[1:])
def t(name, *edits):
    if only and name not in only: return
    try_(name, edits)
t("commit-data-helper",(R+"commit_builder.go",'''	data := [][]byte{
		app.values.Head().Bytes(),
		[]byte(fmt.Sprintf("%d", app.pCreatedOn.UnixNano())),
	}

	if app.pParent != nil {
		data = append(data, app.pParent.Bytes())
	}

	if app.pProof != nil {
		data = append(data, app.pProof.Bytes())
	}

	pHash, err := app.hashAdapter.FromMultiBytes(data)
''','''	pHash, err := app.hashAdapter.FromMultiBytes(app.data())
'''),(R+"commit_builder.go",'''// Now builds a new Commit instance
''','''func (app *commitBuilder) data() [][]byte {
	head := app.values.Head().Bytes()
	createdOn := fmt.Sprintf("%d", app.pCreatedOn.UnixNano())
	output := [][]byte{
		head,
		[]byte(createdOn),
	}

	if app.pParent != nil {
		output = append(output, app.pParent.Bytes())
	}

	if app.pProof == nil {
		return output
	}

	return append(output, app.pProof.Bytes())
}

// Now builds a new Commit instance
'''))
t("commit-score-helper",(R+"commit_builder.go",'''		score := uint(0)
		resultBytes := pResult.Bytes()
		for _, oneByte := range resultBytes {
			if oneByte == app.miningValue {
				score++
				continue
			}

			break
		}

		mine = createMine(*pResult, app.pProof, score)
''','''		mine = createMine(*pResult, app.pProof, app.score(pResult.Bytes()))
'''),(R+"commit_builder.go",'''// Now builds a new Commit instance
''','''func (app *commitBuilder) score(data []byte) uint {
	score := uint(0)
	for _, oneByte := range data {
		if oneByte != app.miningValue {
			return score
		}

		score++
	}

	return score
}

// Now builds a new Commit instance
'''))
t("commit-score-while",(R+"commit_builder.go",'''		for _, oneByte := range resultBytes {
			if oneByte == app.miningValue {
				score++
				continue
			}

			break
		}
''','''		for int(score) < len(resultBytes) && resultBytes[score] == app.miningValue {
			score++
		}
'''))
t("commit-score-index",(R+"commit_builder.go",'''		for _, oneByte := range resultBytes {
			if oneByte == app.miningValue {
				score++
				continue
			}

			break
		}
''','''		for i := 0; i < len(resultBytes); i++ {
			if resultBytes[i] != app.miningValue {
				break
			}

			score++
		}
'''))
t("commit-mine-helper",(R+"commit_builder.go",'''	var mine Mine
	if app.pProof != nil {
		// make the result hash:
		pResult, err := app.hashAdapter.FromMultiBytes([][]byte{
			pHash.Bytes(),
			app.pProof.Bytes(),
		})

		if err != nil {
			return nil, err
		}

		score := uint(0)
		resultBytes := pResult.Bytes()
		for _, oneByte := range resultBytes {
			if oneByte == app.miningValue {
				score++
				continue
			}

			break
		}

		mine = createMine(*pResult, app.pProof, score)
	}

''','''	mine, err := app.mine(*pHash)
	if err != nil {
		return nil, err
	}

'''),(R+"commit_builder.go",'''// Now builds a new Commit instance
''','''func (app *commitBuilder) mine(hsh hash.Hash) (Mine, error) {
	if app.pProof == nil {
		return nil, nil
	}

	pResult, err := app.hashAdapter.FromMultiBytes([][]byte{
		hsh.Bytes(),
		app.pProof.Bytes(),
	})

	if err != nil {
		return nil, err
	}

	score := uint(0)
	for _, oneByte := range pResult.Bytes() {
		if oneByte != app.miningValue {
			break
		}

		score++
	}

	return createMine(*pResult, app.pProof, score), nil
}

// Now builds a new Commit instance
'''))
t("commit-return-nested",(R+"commit_builder.go",'''	if app.pParent != nil && mine != nil {
		return createCommitWithParentAndMine(*pHash, app.values, *app.pCreatedOn, app.pParent, mine), nil
	}

	if app.pParent != nil {
		return createCommitWithParent(*pHash, app.values, *app.pCreatedOn, app.pParent), nil
	}

	if mine != nil {
''','''	if app.pParent != nil {
		if mine == nil {
			return createCommitWithParent(*pHash, app.values, *app.pCreatedOn, app.pParent), nil
		}

		return createCommitWithParentAndMine(*pHash, app.values, *app.pCreatedOn, app.pParent, mine), nil
	}

	if mine != nil {
'''))
t("commit-createdon-first",(R+"commit_builder.go",'''	if app.values == nil {
		return nil, errors.New("the values is mandatory in order to build a Commit instance")
	}

	if app.pCreatedOn == nil {
		return nil, errors.New("the creation time is mandatory in order to build a Commit instance")
	}
''','''	if app.pCreatedOn == nil {
		return nil, errors.New("the creation time is mandatory in order to build a Commit instance")
	}

	if app.values == nil {
		return nil, errors.New("the values is mandatory in order to build a Commit instance")
	}
'''))
t("keys-next-max",(R+"contentkeys.go",'''		if biggest < next {
			biggest = next
		}
''','''		if next <= biggest {
			continue
		}

		biggest = next
'''))
t("keys-next-helper",(R+"contentkeys.go",'''		pointer := oneContentKey.Content()
		next := int64(pointer.From() + pointer.Length())
		if biggest < next {
			biggest = next
		}
''','''		if next := endOf(oneContentKey.Content()); next > biggest {
			biggest = next
		}
'''),(R+"contentkeys.go",'''// ListByKind returns the list by kind
''','''func endOf(pointer Pointer) int64 {
	return int64(pointer.From() + pointer.Length())
}

// ListByKind returns the list by kind
'''))
t("keys-kind-inverted",(R+"contentkeys.go",'''		if oneContentKey.Kind() != kind {
			continue
		}

		output = append(output, oneContentKey)
''','''		if oneContentKey.Kind() == kind {
			output = append(output, oneContentKey)
		}
'''))
t("keys-fetch-inverted",(R+"contentkeys.go",'''	if ins, ok := obj.mp[contentKeyname]; ok {
		return ins, nil
	}

	str := fmt.Sprintf("the contentKey (hash: %s) is invalid", contentKeyname)
	return nil, errors.New(str)
''','''	ins, ok := obj.mp[contentKeyname]
	if !ok {
		str := fmt.Sprintf("the contentKey (hash: %s) is invalid", contentKeyname)
		return nil, errors.New(str)
	}

	return ins, nil
'''))
t("commits-build-simple",(R+"commits_builder.go",'''	if app.list != nil && len(app.list) <= 0 {
		app.list = nil
	}

	if app.list == nil {
''','''	if len(app.list) == 0 {
'''))
t("commits-map-helper",(R+"commits_builder.go",'''	mp := map[string]Commit{}
	for _, oneCommit := range app.list {
		commitname := oneCommit.Hash().String()
		mp[commitname] = oneCommit
	}

	return createCommits(mp, app.list), nil
''','''	return createCommits(commitsByHash(app.list), app.list), nil
'''),(R+"commits_builder.go",'''// Now builds''','''func commitsByHash(list []Commit) map[string]Commit {
	mp := make(map[string]Commit, len(list))
	for i := range list {
		mp[list[i].Hash().String()] = list[i]
	}

	return mp
}

// Now builds'''))
t("latest-last",(R+"commits.go",'''	return obj.list[len(obj.list)-1]
''','''	last := len(obj.list) - 1
	return obj.list[last]
'''))
t("tree-hash-helper",(H+"builder.go",'''	hashes := []hash.Hash{}
	for _, oneData := range blocks {
		oneHash, err := app.hashAdapter.FromBytes(oneData)
		if err != nil {
			return nil, err
		}

		hashes = append(hashes, *oneHash)
	}

''','''	hashes, err := app.hashes(blocks)
	if err != nil {
		return nil, err
	}

'''),(H+"builder.go",'''// Now builds''','''func (app *builder) hashes(blocks [][]byte) ([]hash.Hash, error) {
	output := []hash.Hash{}
	for _, oneData := range blocks {
		oneHash, err := app.hashAdapter.FromBytes(oneData)
		if err != nil {
			return nil, err
		}

		output = append(output, *oneHash)
	}

	return output, nil
}

// Now builds'''))
t("tree-pad-helper",(H+"builder.go",'''	length := len(hashes)
	isPowerOfTwo := (length != 0) && ((length & (length - 1)) == 0)
	if !isPowerOfTwo {
		lengthAsFloat := float64(len(hashes))
		next := uint(math.Pow(2, math.Ceil(math.Log(lengthAsFloat)/math.Log(2))))
		remaining := int(next) - int(lengthAsFloat)
		for i := 0; i < remaining; i++ {
			single, err := app.hashAdapter.FromBytes(nil)
			if err != nil {
				return nil, err
			}

			hashes = append(hashes, *single)
		}
	}
''','''	remaining := missing(len(hashes))
	for i := 0; i < remaining; i++ {
		single, err := app.hashAdapter.FromBytes(nil)
		if err != nil {
			return nil, err
		}

		hashes = append(hashes, *single)
	}
'''),(H+"builder.go",'''// Now builds''','''func missing(length int) int {
	isPowerOfTwo := (length != 0) && ((length & (length - 1)) == 0)
	if isPowerOfTwo {
		return 0
	}

	lengthAsFloat := float64(length)
	next := uint(math.Pow(2, math.Ceil(math.Log(lengthAsFloat)/math.Log(2))))
	return int(next) - length
}

// Now builds'''))
t("tree-pow-helper",(H+"builder.go",'''	length := len(hashes)
	isPowerOfTwo := (length != 0) && ((length & (length - 1)) == 0)
	if !isPowerOfTwo {
''','''	if !isPowerOfTwo(len(hashes)) {
'''),(H+"builder.go",'''// Now builds''','''func isPowerOfTwo(length int) bool {
	return length != 0 && length&(length-1) == 0
}

// Now builds'''))
t("tree-pad-while",(H+"builder.go",'''		remaining := int(next) - int(lengthAsFloat)
		for i := 0; i < remaining; i++ {
''','''		for uint(len(hashes)) < next {
'''))
t("tree-pad-hoist",(H+"builder.go",'''		for i := 0; i < remaining; i++ {
			single, err := app.hashAdapter.FromBytes(nil)
			if err != nil {
				return nil, err
			}

''','''		single, err := app.hashAdapter.FromBytes(nil)
		if err != nil {
			return nil, err
		}

		for i := 0; i < remaining; i++ {
'''))
t("tree-pow-loop",(H+"builder.go",'''	length := len(hashes)
	isPowerOfTwo := (length != 0) && ((length & (length - 1)) == 0)
	if !isPowerOfTwo {
		lengthAsFloat := float64(len(hashes))
		next := uint(math.Pow(2, math.Ceil(math.Log(lengthAsFloat)/math.Log(2))))
		remaining := int(next) - int(lengthAsFloat)
		for i := 0; i < remaining; i++ {
			single, err := app.hashAdapter.FromBytes(nil)
			if err != nil {
				return nil, err
			}

			hashes = append(hashes, *single)
		}
	}
''','''	next := 1
	for next < len(hashes) {
		next *= 2
	}

	for len(hashes) < next {
		single, err := app.hashAdapter.FromBytes(nil)
		if err != nil {
			return nil, err
		}

		hashes = append(hashes, *single)
	}
'''),(H+"builder.go",'''	"math"
''',''''''))
t("tree-pad-min",(H+"builder.go",'''	for len(blocks) <= 1 {
''','''	for len(blocks) < 2 {
'''))
t("tree-leaves-helper",(H+"builder.go",'''	list := []Leaf{}
	for _, oneBlockHash := range hashes {
		leaf, err := app.leafBuilder.Create().WithHead(oneBlockHash).Now()
		if err != nil {
			return nil, err
		}

		list = append(list, leaf)
	}

	leaves, err := app.leavesBuilder.Create().WithList(list).Now()
	if err != nil {
		return nil, err
	}

	return app.leavesAdapter.ToHashTree(leaves)
''','''	leaves, err := app.leaves(hashes)
	if err != nil {
		return nil, err
	}

	return app.leavesAdapter.ToHashTree(leaves)
'''),(H+"builder.go",'''// Now builds''','''func (app *builder) leaves(hashes []hash.Hash) (Leaves, error) {
	list := make([]Leaf, 0, len(hashes))
	for i := range hashes {
		leaf, err := app.leafBuilder.Create().WithHead(hashes[i]).Now()
		if err != nil {
			return nil, err
		}

		list = append(list, leaf)
	}

	return app.leavesBuilder.Create().WithList(list).Now()
}

// Now builds'''))
t("children-step",(H+"leaves_adapter.go",'''	for index, oneLeaf := range list {

		if index%2 != 0 {
			continue
		}

		left := oneLeaf
		right := list[index+1]
''','''	for index := 0; index < len(list); index += 2 {
		left := list[index]
		right := list[index+1]
'''))
t("children-even",(H+"leaves_adapter.go",'''		if index%2 != 0 {
			continue
		}

		left := oneLeaf
		right := list[index+1]
		child, err := app.createChildLeaf(left, right)
		if err != nil {
			return nil, err
		}

		parent := createParentLeaf(left, right)
		childWithParent := createLeafWithParent(child.Head(), parent)
		childrenLeaves = append(childrenLeaves, childWithParent)
''','''		if index%2 == 0 {
			right := list[index+1]
			child, err := app.createChildLeaf(oneLeaf, right)
			if err != nil {
				return nil, err
			}

			parent := createParentLeaf(oneLeaf, right)
			childrenLeaves = append(childrenLeaves, createLeafWithParent(child.Head(), parent))
		}
'''))
t("tohashtree-iter",(H+"leaves_adapter.go",'''	if length == 2 {
		left := list[0]
		right := list[1]
		parent, err := app.parentLeafBuilder.Create().WithLeft(left).WithRight(right).Now()
		if err != nil {
			return nil, err
		}

		return app.leafAdapter.ParentLeafToHashTree(parent)
	}

	childrenLeaves, err := app.createChildrenLeaves(list)
	if err != nil {
		return nil, err
	}

	return app.ToHashTree(childrenLeaves)
''','''	if length > 2 {
		childrenLeaves, err := app.createChildrenLeaves(list)
		if err != nil {
			return nil, err
		}

		return app.ToHashTree(childrenLeaves)
	}

	parent, err := app.parentLeafBuilder.Create().WithLeft(list[0]).WithRight(list[1]).Now()
	if err != nil {
		return nil, err
	}

	return app.leafAdapter.ParentLeafToHashTree(parent)
'''))
t("toorder-nocontinue",(H+"adapter.go",'''		leafHashAsString := oneLeaf.Head().String()
		if oneData, ok := hashed[leafHashAsString]; ok {
			out = append(out, oneData)
			continue
		}

		//must be a filling Leaf, so continue:
		continue
''','''		oneData, ok := hashed[oneLeaf.Head().String()]
		if !ok {
			continue
		}

		out = append(out, oneData)
'''))
t("toorder-table-helper",(H+"adapter.go",'''	hashed := map[string][]byte{}
	for _, oneData := range mixed {
		hsh, err := app.hashAdapter.FromBytes(oneData)
		if err != nil {
			return nil, err
		}

		hashAsString := hsh.String()
		hashed[hashAsString] = oneData
	}

	out := [][]byte{}
''','''	hashed, err := app.byHash(mixed)
	if err != nil {
		return nil, err
	}

	out := [][]byte{}
'''),(H+"adapter.go",'''// ToOrder takes''','''func (app *adapter) byHash(mixed [][]byte) (map[string][]byte, error) {
	hashed := map[string][]byte{}
	for _, oneData := range mixed {
		hsh, err := app.hashAdapter.FromBytes(oneData)
		if err != nil {
			return nil, err
		}

		hashed[hsh.String()] = oneData
	}

	return hashed, nil
}

// ToOrder takes'''))
t("merge-fresh",(H+"leaves.go",'''	list := obj.Leaves()
	list = append(list, lves.Leaves()...)
	return createLeaves(list)
''','''	list := []Leaf{}
	list = append(list, obj.list...)
	for _, oneLeaf := range lves.Leaves() {
		list = append(list, oneLeaf)
	}

	return createLeaves(list)
'''))
t("leaves-copy",(H+"leaves.go",'''	out := []Leaf{}
	for _, oneLeaf := range obj.list {
		out = append(out, oneLeaf)
	}

	return out
''','''	out := make([]Leaf, len(obj.list))
	copy(out, obj.list)
	return out
'''))
t("hash-sum512",(HS+"adapter.go",'''		h := sha512.New()
		_, err := h.Write(input)
		if err != nil {
			return nil, err
		}

		input = h.Sum(nil)
''','''		sum := sha512.Sum512(input)
		input = sum[:]
'''))
t("hash-copy",(HS+"adapter.go",'''	out := Hash{}
	for _, oneByte := range input {
		out = append(out, oneByte)
	}

	return &out, nil
}

// FromMulti''','''	out := append(Hash{}, input...)
	return &out, nil
}

// FromMulti'''))
t("hash-multi-join",(HS+"adapter.go",'''	merged := []byte{}
	for _, oneRow := range input {
		merged = append(merged, oneRow...)
	}

	return app.FromBytes(merged)
''','''	return app.FromBytes(bytes.Join(input, nil))
'''),(HS+"adapter.go",'''	"crypto/sha512"
''','''	"bytes"
	"crypto/sha512"
'''))
t("leaf-noparent-first",(H+"leaf_adapter.go",'''	headBytes := ins.Head().Bytes()

	output := []byte{}
	output = append(output, headBytes...)

	if ins.HasParent() {
		parentBytes, err := app.ParentLeafToContent(ins.Parent())
		if err != nil {
			return nil, err
		}

		output = append(output, parentBytes...)
	}

	return output, nil
''','''	output := []byte{}
	output = append(output, ins.Head().Bytes()...)
	if !ins.HasParent() {
		return output, nil
	}

	parentBytes, err := app.ParentLeafToContent(ins.Parent())
	if err != nil {
		return nil, err
	}

	return append(output, parentBytes...), nil
'''))
t("parentleaf-appenduint",(H+"leaf_adapter.go",'''	leftLengthBytes := make([]byte, 8)
	binary.LittleEndian.PutUint64(leftLengthBytes, uint64(len(leftBytes)))

	output := []byte{}
	output = append(output, leftLengthBytes...)
	output = append(output, leftBytes...)
''','''	output := make([]byte, 0, 8+len(leftBytes)+len(rightBytes))
	output = binary.LittleEndian.AppendUint64(output, uint64(len(leftBytes)))
	output = append(output, leftBytes...)
'''))
t("parentleaf-rest",(H+"leaf_adapter.go",'''	left, err := app.ContentToLeaf(content[8 : 8+leftLength])
	if err != nil {
		return nil, err
	}

	right, err := app.ContentToLeaf(content[leftLength+8:])
''','''	remaining := content[8:]
	left, err := app.ContentToLeaf(remaining[:leftLength])
	if err != nil {
		return nil, err
	}

	right, err := app.ContentToLeaf(remaining[leftLength:])
'''))
t("leaves-helper",(H+"leaves_adapter.go",'''		leafLengthBytes := make([]byte, 8)
		binary.LittleEndian.PutUint64(leafLengthBytes, uint64(len(content)))

		output = append(output, leafLengthBytes...)
		output = append(output, content...)
''','''		output = append(output, sized(content)...)
'''),(H+"leaves_adapter.go",'''// ToLeaves converts bytes to leaves
''','''func sized(content []byte) []byte {
	output := make([]byte, 8)
	binary.LittleEndian.PutUint64(output, uint64(len(content)))
	return append(output, content...)
}

// ToLeaves converts bytes to leaves
'''))
