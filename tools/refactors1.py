import sys; sys.path.insert(0, "/verif/tools")
from refactor import *
R="libs/databases/domain/references/commit_builder.go"
try_("commit-helper",[(R,'''	data := [][]byte{
		app.values.Head().Bytes(),
		[]byte(fmt.Sprintf("%d", app.pCreatedOn.UnixNano())),
	}

	if app.pParent != nil {
		data = append(data, app.pParent.Bytes())
	}

	if app.pProof != nil {
		data = append(data, app.pProof.Bytes())
	}

	pHash, err := app.hashAdapter.FromMultiBytes(data)
''','''	pHash, err := app.hashAdapter.FromMultiBytes(app.hashed())
'''),(R,'''// Now builds a new Commit instance
''','''func (app *commitBuilder) hashed() [][]byte {
	data := [][]byte{}
	data = append(data, app.values.Head().Bytes())
	data = append(data, []byte(fmt.Sprintf("%d", app.pCreatedOn.UnixNano())))
	if app.pParent != nil {
		data = append(data, app.pParent.Bytes())
	}

	if app.pProof != nil {
		data = append(data, app.pProof.Bytes())
	}

	return data
}

// Now builds a new Commit instance
'''),(R,'''	if app.pParent != nil && mine != nil {
		return createCommitWithParentAndMine(*pHash, app.values, *app.pCreatedOn, app.pParent, mine), nil
	}

	if app.pParent != nil {
		return createCommitWithParent(*pHash, app.values, *app.pCreatedOn, app.pParent), nil
	}

	if mine != nil {
		return createCommitWithMine(*pHash, app.values, *app.pCreatedOn, mine), nil
	}

	return createCommit(*pHash, app.values, *app.pCreatedOn), nil
''','''	switch {
	case app.pParent == nil && mine == nil:
		return createCommit(*pHash, app.values, *app.pCreatedOn), nil
	case app.pParent == nil:
		return createCommitWithMine(*pHash, app.values, *app.pCreatedOn, mine), nil
	case mine == nil:
		return createCommitWithParent(*pHash, app.values, *app.pCreatedOn, app.pParent), nil
	}
	return createCommitWithParentAndMine(*pHash, app.values, *app.pCreatedOn, app.pParent, mine), nil
''')])
T="libs/asts/domain/trees/tree_builder.go"
try_("tree-switch",[(T,'''	if app.grammar == nil {
		return nil, errors.New("the grammar is mandatory in order to build a Tree instance")
	}

	if app.block == nil {
		return nil, errors.New("the block is mandatory in order to build a Tree instance")
	}

	if app.remaining != nil && len(app.remaining) <= 0 {
		app.remaining = nil
	}
''','''	if err := app.validate(); err != nil {
		return nil, err
	}

	app.normalize()
'''),(T,'''// Now builds a new Tree instance
''','''func (app *treeBuilder) validate() error {
	switch {
	case app.grammar == nil:
		return errors.New("the grammar is mandatory in order to build a Tree instance")
	case app.block == nil:
		return errors.New("the block is mandatory in order to build a Tree instance")
	}

	return nil
}

func (app *treeBuilder) normalize() {
	if len(app.remaining) == 0 {
		app.remaining = nil
	}
}

// Now builds a new Tree instance
''')])
C="libs/asts/domain/grammars/channelcondition_builder.go"
V="libs/interpreters/domain/instructions/value_builder.go"
try_("value-nested",[(V,'''	if app.variable != nil {
		return createValueWithVariable(app.variable), nil
	}

	if app.constant != nil {
		return createValueWithConstant(app.constant), nil
	}

	if app.instructions != nil {
		return createValueWithInstructions(app.instructions), nil
	}

	if app.execution != nil {
		return createValueWithExecution(app.execution), nil
	}

	return nil, errors.New("the Value is invalid")
''','''	var ins Value
	if app.variable != nil {
		ins = createValueWithVariable(app.variable)
	} else if app.constant != nil {
		ins = createValueWithConstant(app.constant)
	} else if app.instructions != nil {
		ins = createValueWithInstructions(app.instructions)
	} else if app.execution != nil {
		ins = createValueWithExecution(app.execution)
	}

	if ins == nil {
		return nil, errors.New("the Value is invalid")
	}

	return ins, nil
''')])
E="libs/databases/domain/contents/content_builder.go"
try_("content-kind-copy",[(E,'''	app.pKind = &kind
	return app''','''	value := kind
	app.pKind = &value
	return app'''),(E,'''	return createContent(*app.pHash, app.data, *app.pKind), nil''','''	contentHash, kind := *app.pHash, *app.pKind
	out := createContent(contentHash, app.data, kind)
	return out, nil''')])
