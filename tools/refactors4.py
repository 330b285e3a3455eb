import sys; sys.path.insert(0, "/verif/tools")
from refactor import *
import os
A="libs/asts/applications/application.go"
Q="libs/queries/applications/application.go"
only=set(sys.argv[1:])
def t(name, edits):
    if only and name not in only: return
    try_(name, edits)
src=open("/repo/"+A).read()
def multi(name, file, subs):
    """subs: (old,new,count)"""
    if only and name not in only: return
    s=open("/repo/"+file).read()
    for old,new,n in subs:
        assert s.count(old)==n,(name,s.count(old),old)
        s=s.replace(old,new)
    try_(name,[(file,None,s)])
# 1 helper for remaining
multi("ast-remaining-helper",A,[
('''		remaining := []byte{}
		if tree.HasRemaining() {
			remaining = tree.Remaining()
		}
''','''		remaining := remainingOf(tree)
''',3),
('''			remaining := []byte{}
			if tree.HasRemaining() {
				remaining = tree.Remaining()
			}
''','''			remaining := remainingOf(tree)
''',1),
('''			rem := []byte{}
			if tree.HasRemaining() {
				rem = tree.Remaining()
			}
''','''			rem := remainingOf(tree)
''',1),
('''func (app *application) channelCondition(''','''func remainingOf(tree trees.Tree) []byte {
	if !tree.HasRemaining() {
		return []byte{}
	}

	return tree.Remaining()
}

func (app *application) channelCondition(''',1),
])
# 2 flag loop in channels
t("ast-channels-flag",[(A,'''	for {
		beginAmount := len(treeList)
		for _, oneChannel := range list {''','''	progressed := true
	for progressed {
		progressed = false
		for _, oneChannel := range list {'''),(A,'''			treeList = append(treeList, tree)
			previousData = remaining
			remaining = rem
		}

		if beginAmount == len(treeList) {
			break
		}
	}
''','''			treeList = append(treeList, tree)
			previousData, remaining = remaining, rem
			progressed = true
		}
	}
''')])
# 3 compose helper in line
t("ast-line-compose-helper",[(A,'''			contentsList := []trees.Content{}
			compose := oneContainer.Compose()
			elementsList := compose.List()
			for _, oneElement := range elementsList {
				grValue := oneElement.Value()
				occurences := int(oneElement.Occurences())
				for i := 0; i < occurences; i++ {
					value, rem, retStack, err := app.elementValue(tokenName, grValue, currentStack, escape, channels, isReverse, previousData, remaining)
					if err != nil {
						return nil, nil, nil, err
					}

					if value == nil {
						return nil, nil, nil, errors.New("the data does not match the compose and therefore the line is invalid")
					}

					contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
					if err != nil {
						return nil, nil, nil, err
					}

					contentsList = append(contentsList, contentIns)
					currentStack = retStack
					previousData = remaining
					remaining = rem
				}
			}

			contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
			if err != nil {
				return nil, nil, nil, err
			}

			elementIns, err := app.treeElementBuilder.Create().WithGrammar(oneContainer).WithContents(contents).Now()
			if err != nil {
				return nil, nil, nil, err
			}

			list = append(list, elementIns)
			continue
''','''			elementIns, prev, rem, retStack, err := app.composeContainer(tokenName, oneContainer, currentStack, escape, channels, isReverse, previousData, remaining)
			if err != nil {
				return nil, nil, nil, err
			}

			previousData = prev
			remaining = rem
			currentStack = retStack
			list = append(list, elementIns)
			continue
'''),(A,'''func (app *application) element(tokenName''','''func (app *application) composeContainer(tokenName string, container grammars.Container, stackMap map[string]*stack, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Element, []byte, []byte, map[string]*stack, error) {
	contentsList := []trees.Content{}
	for _, oneElement := range container.Compose().List() {
		for i := oneElement.Occurences(); i > 0; i-- {
			value, rem, retStack, err := app.elementValue(tokenName, oneElement.Value(), stackMap, escape, channels, isReverse, prevData, currentData)
			if err != nil {
				return nil, nil, nil, nil, err
			}

			if value == nil {
				return nil, nil, nil, nil, errors.New("the data does not match the compose and therefore the line is invalid")
			}

			contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
			if err != nil {
				return nil, nil, nil, nil, err
			}

			contentsList = append(contentsList, contentIns)
			prevData = currentData
			currentData = rem
			stackMap = retStack
		}
	}

	contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
	if err != nil {
		return nil, nil, nil, nil, err
	}

	elementIns, err := app.treeElementBuilder.Create().WithGrammar(container).WithContents(contents).Now()
	if err != nil {
		return nil, nil, nil, nil, err
	}

	return elementIns, prevData, currentData, stackMap, nil
}

func (app *application) element(tokenName''')])
# 4 element loop conditions joined, helper for max
t("ast-line-loop",[(A,'''		for {

			if len(remaining) <= 0 {
				break
			}

			if cardinality.HasMax() {
				amount := uint(len(contentsList))
				if amount >= *pMax {
					break
				}
			}

			contentIns,''','''		for len(remaining) > 0 {
			if cardinality.HasMax() && uint(len(contentsList)) >= *pMax {
				break
			}

			contentIns,'''),(A,'''		min := int(cardinality.Min())
		if len(contentsList) < min {
			str :=''','''		if min := cardinality.Min(); uint(len(contentsList)) < min {
			str :=''')])
t("ast-bytes-equal",[(A,'''				if bytes.Compare(remaining, data) == 0 {
					continue
				}

''','''				if bytes.Equal(data, remaining) {
					continue
				}
''')])
# 5 rename private functions
multi("ast-rename",A,[("app.token(","app.matchToken(",src.count("app.token(")),(") token(",") matchToken(",1),("app.elementValue(","app.matchValue(",2),(") elementValue(",") matchValue(",1)])
multi("ast-rename2",A,[("app.line(","app.matchLine(",3),(") line(",") matchLine(",1),("app.channels(","app.skipChannels(",2),(") channels(",") skipChannels(",1)])
# 6 drop unused params: isReverse in elementValue etc
multi("ast-drop-params",A,[("app.elementValue(tokenName, grValue, stackMap, escape, channels, isReverse, prevData, currentData)","app.elementValue(grValue, stackMap, channels, prevData, currentData)",1),
("app.elementValue(tokenName, grValue, currentStack, escape, channels, isReverse, previousData, remaining)","app.elementValue(grValue, currentStack, channels, previousData, remaining)",1),
("elementValue(tokenName string, value values.Value, stackMap map[string]*stack, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte)","elementValue(value values.Value, stackMap map[string]*stack, channels grammars.Channels, prevData []byte, currentData []byte)",1)])
# 7 reverse line extracted
m=src
start=m.index("			lineIns, err := app.treeLineBuilder.Create().\n				WithIndex(uint(idx)).")
pre='''			contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
			if err != nil {
				return nil, nil, nil, err
			}

			elementIns, err := app.treeElementBuilder.Create().WithContents(contents).Now()
			if err != nil {
				return nil, nil, nil, err
			}

			elements, err := app.treeElementsBuilder.Create().WithList([]trees.Element{
				elementIns,
			}).Now()
			if err != nil {
				return nil, nil, nil, err
			}

			lineIns, err := app.treeLineBuilder.Create().
				WithIndex(uint(idx)).
				WithGrammar(oneLine).
				WithElements(elements).
				IsReverse().
				Now()

			if err != nil {
				return nil, nil, nil, err
			}
'''
t("ast-reverse-line-helper",[(A,pre,'''			lineIns, err := app.reverseLine(oneLine, uint(idx), contentsList)
			if err != nil {
				return nil, nil, nil, err
			}
'''),(A,'''func (app *application) element(tokenName''','''func (app *application) reverseLine(line grammars.Line, index uint, list []trees.Content) (trees.Line, error) {
	contents, err := app.treeContentsBuilder.Create().WithList(list).Now()
	if err != nil {
		return nil, err
	}

	elementIns, err := app.treeElementBuilder.Create().WithContents(contents).Now()
	if err != nil {
		return nil, err
	}

	elements, err := app.treeElementsBuilder.Create().WithList([]trees.Element{elementIns}).Now()
	if err != nil {
		return nil, err
	}

	builder := app.treeLineBuilder.Create().IsReverse()
	return builder.WithGrammar(line).WithElements(elements).WithIndex(index).Now()
}

func (app *application) element(tokenName''')])
# 8 contents of bytes helper
multi("ast-value-content-helper",A,[('''						value, err := app.treeValueBuilder.Create().WithContent(oneValue).Now()
										if err != nil {
											return nil, nil, nil, err
										}

										contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
''','''						contentIns, err := app.byteContent(oneValue)
''',1),('''				value, err := app.treeValueBuilder.Create().WithContent(remaining[0]).Now()
				if err != nil {
					return nil, nil, nil, err
				}

				contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
''','''				contentIns, err := app.byteContent(remaining[0])
''',1),('''func (app *application) element(tokenName''','''func (app *application) byteContent(data byte) (trees.Content, error) {
	value, err := app.treeValueBuilder.Create().WithContent(data).Now()
	if err != nil {
		return nil, err
	}

	return app.treeContentBuilder.Create().WithValue(value).Now()
}

func (app *application) element(tokenName''',1)])
# 9 escape nested ifs flattened
t("ast-escape-flat",[(A,'''					escapeTree, _, err := app.token(escape, stackMap, nil, channels, false, previousData, remaining)
					if err == nil {
						if escapeTree.Block().HasSuccessful() {
							if escapeTree.HasRemaining() {
''','''					escapeTree, _, err := app.token(escape, stackMap, nil, channels, false, previousData, remaining)
					if err == nil && escapeTree.Block().HasSuccessful() {
						{
							if escapeTree.HasRemaining() {
''')])
t("ast-channel-cond-early",[(A,'''	isPrevMatch := true
	if condition.HasPrevious() {''','''	if condition.HasPrevious() {'''),(A,'''		isPrevMatch = tree != nil
	}

	isNextMatch := true
	if condition.HasNext() {''','''		if tree == nil {
			return false, nil
		}
	}

	if condition.HasNext() {'''),(A,'''		isNextMatch = tree != nil
	}
	return isPrevMatch && isNextMatch, nil''','''		return tree != nil, nil
	}

	return true, nil''')])
t("ast-elementcontent-switch",[(A,'''	if content.IsExternal() {
		external := content.External()
		tree, err := app.external(''','''	switch {
	case content.IsExternal():
		external := content.External()
		tree, err := app.external('''),(A,'''		return nil, tree, remaining, stackMap, nil
	}

	if content.IsInstance() {
		instance := content.Instance()
		tree, retStack, err''','''		return nil, tree, remaining, stackMap, nil
	case content.IsInstance():
		instance := content.Instance()
		tree, retStack, err'''),(A,'''		return nil, tree, remaining, retStack, nil
	}

	if content.IsRecursive() {''','''		return nil, tree, remaining, retStack, nil
	case content.IsRecursive():'''),(A,'''		str := fmt.Sprintf("the token (name: %s) was expected to be recursive, but it is not in the current stack", recursive)
		return nil, nil, nil, nil, errors.New(str)
	}
''','''		return nil, nil, nil, nil, fmt.Errorf("the token (name: %s) was expected to be recursive, but it is not in the current stack", recursive)
	}
''')])
t("ast-elementvalue-guard",[(A,'''	number := value.Number()
	if number == remaining[0] {
		ins, err := builder.WithContent(remaining[0]).Now()
		if err != nil {
			return nil, nil, nil, err
		}

		return ins, remaining[1:], stackMap, nil
	}

	return nil, nil, nil, nil
''','''	head, tail := remaining[0], remaining[1:]
	if value.Number() != head {
		return nil, nil, nil, nil
	}

	ins, err := builder.WithContent(head).Now()
	if err != nil {
		return nil, nil, nil, err
	}

	return ins, tail, stackMap, nil
''')])
t("ast-token-defer",[(A,'''	delete(stackMap, tokenName)
	if isRecursive {
		stackMap[tokenName] = previous
	}

	if err != nil {
		return nil, nil, err
	}

	stackMap = retStackMap
''','''	if isRecursive {
		stackMap[tokenName] = previous
	} else {
		delete(stackMap, tokenName)
	}

	if err != nil {
		return nil, nil, err
	}

	stackMap = retStackMap
''')])
t("ast-token-stack-helper",[(A,'''	current := &stack{
		token: token,
		lines: map[int][]byte{},
	}

	// if''','''	current := newStack(token)

	// if'''),(A,'''			currentStack[tokenName] = &stack{
				token: token,
				lines: map[int][]byte{},
			}
''','''			currentStack[tokenName] = newStack(token)
'''),(A,'''func (app *application) external(''','''func newStack(token grammars.Token) *stack {
	return &stack{
		token: token,
		lines: map[int][]byte{},
	}
}

func (app *application) external(''')])
t("ast-block-seen-helper",[(A,'''		if _, ok := currentStack[tokenName]; ok {
			if data, ok := currentStack[tokenName].lines[idx]; ok {
				if bytes.Compare(remaining, data) == 0 {
					continue
				}

			}
		}
''','''		if seen(currentStack, tokenName, idx, remaining) {
			continue
		}
'''),(A,'''func (app *application) external(''','''func seen(stackMap map[string]*stack, name string, idx int, data []byte) bool {
	entry, ok := stackMap[name]
	if !ok {
		return false
	}

	previous, ok := entry.lines[idx]
	return ok && bytes.Equal(previous, data)
}

func (app *application) external(''')])
# queries
t("q-fetch-merge",[(Q,'''			tree := oneContent.Tree()
			if oneFetcher.IsQuery() {
				query := oneFetcher.Query()
				ins, isValid, err := app.queryFetch(query, tree, previous)
				if err != nil {
					return nil, err
				}

				if !isValid {
					continue
				}

				row = append(row, ins)
				continue
			}

			recursive := oneFetcher.Recursive()
			if query, ok := previous[recursive]; ok {
				ins, isValid, err := app.queryFetch(query, tree, previous)
				if err != nil {
					return nil, err
				}

				if !isValid {
					continue
				}

				row = append(row, ins)
				continue
			}

			str := fmt.Sprintf("the recursive Query's Token (name: %s) could not be found in the previous iterations", recursive)
			return nil, errors.New(str)

''','''			var query queries.Query
			if oneFetcher.IsQuery() {
				query = oneFetcher.Query()
			} else {
				recursive := oneFetcher.Recursive()
				found, ok := previous[recursive]
				if !ok {
					str := fmt.Sprintf("the recursive Query's Token (name: %s) could not be found in the previous iterations", recursive)
					return nil, errors.New(str)
				}

				query = found
			}

			ins, isValid, err := app.queryFetch(query, oneContent.Tree(), previous)
			if err != nil {
				return nil, err
			}

			if isValid {
				row = append(row, ins)
			}
''')])
t("q-value-hoist",[(Q,'''		row := []interface{}{}
		for _, oneFetcher := range fetchersList {
			if oneContent.IsValue() {
				continue
			}

			tree''','''		if oneContent.IsValue() {
			continue
		}

		row := []interface{}{}
		for _, oneFetcher := range fetchersList {
			tree''')])
t("q-norow",[(Q,'''		row := []interface{}{}
		for''','''		for'''),(Q,'''		output = append(output, row...)
''',''''''),])if False else None
multi("q-norow",Q,[('''		row := []interface{}{}
		for''','''		for''',1),('''row = append(row, ins)''','''output = append(output, ins)''',2),('''
		output = append(output, row...)
''','''''',1)])
t("q-contents-name",[(Q,'''		contents := oneElement.Contents()
		if !oneElement.HasGrammar() {
			if queryElement.Name() != queryToken.ReverseName() {
				continue
			}

			if queryElement.Index() == cpt {
				return app.tokenRefine(queryToken, contents)
			}

			cpt++
			continue
		}

		if oneElement.Grammar().Name() != queryElement.Name() {
			continue
		}

		if queryElement.Index() == cpt {
			return app.tokenRefine(queryToken, contents)
		}
''','''		name := queryToken.ReverseName()
		if oneElement.HasGrammar() {
			name = oneElement.Grammar().Name()
		}

		if name != queryElement.Name() {
			continue
		}

		if queryElement.Index() == cpt {
			return app.tokenRefine(queryToken, oneElement.Contents())
		}
''')])
t("q-contents-collect",[(Q,'''	cpt := uint(0)
	queryElement''','''	matching := []trees.Element{}
	queryElement'''),(Q,'''			if queryElement.Index() == cpt {
				return app.tokenRefine(queryToken, contents)
			}

			cpt++
			continue
''','''			matching = append(matching, oneElement)
			continue
'''),(Q,'''		contents := oneElement.Contents()
''',''''''),(Q,'''		if queryElement.Index() == cpt {
			return app.tokenRefine(queryToken, contents)
		}

		cpt++
	}

	return []trees.Content{}, nil
''','''		matching = append(matching, oneElement)
	}

	index := queryElement.Index()
	if index >= uint(len(matching)) {
		return []trees.Content{}, nil
	}

	return app.tokenRefine(queryToken, matching[index].Contents())
''')])
t("q-instance",[(Q,'''	if fn.IsSingle() {
		var param interface{}
		if len(insList) > 0 {
			param = insList[0]
		}

		singleFn := fn.Single()
		return singleFn(param)
	}

	multiFn := fn.Multi()
	return multiFn(insList)
}

func (app *application) tokenRefine''','''	if !fn.IsSingle() {
		return fn.Multi()(insList)
	}

	return fn.Single()(insList[0])
}

func (app *application) tokenRefine''')])
t("q-inline-rename",[(Q,'''	ins, isValid, err := app.queryFetch(query, treeIns, nil)
''','''	ins, isValid, err := app.queryFetch(query, treeIns, map[string]queries.Query{})
'''),(Q,'''	if previous == nil {
		previous = map[string]queries.Query{}
	}

''','')])
t("q-refine",[(Q,'''	pIndex := token.Content()
	list := contents.List()
	listLength := uint(len(list))
	if listLength <= *pIndex {
		str := fmt.Sprintf("the contents cannot be refined because the token query requires a content (index: %d) but the list (length: %d) is too small", *pIndex, listLength)
		return nil, errors.New(str)
	}

	return []trees.Content{
		list[*pIndex],
	}, nil
''','''	index, list := *token.Content(), contents.List()
	if index < uint(len(list)) {
		return list[index : index+1], nil
	}

	return nil, fmt.Errorf("the contents cannot be refined because the token query requires a content (index: %d) but the list (length: %d) is too small", index, len(list))
''')])
