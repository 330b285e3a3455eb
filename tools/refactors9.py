"""Behaviour-preserving edits of the coverage of grammars."""
import sys
from refactor import try_
A="libs/asts/applications/application.go"
only=sys.argv[1:]
def t(name,*edits):
    if not only or name in only: try_(name,list(edits))
CH='''	if grammar.HasChannels() {
		channels := grammar.Channels().List()
		for _, oneChannel := range channels {
			token := oneChannel.Token()
			coverages, err := app.coveragesToken(token, nil, &skip)
			if err != nil {
				return nil, err
			}

			if coverages != nil {
				list = append(list, coverages.List()...)
			}
		}
	}
'''
t("cov-helper",(A,CH,'''	channelList, err := app.channelCoverages(grammar, &skip)
	if err != nil {
		return nil, err
	}

	list = append(list, channelList...)
'''),(A,'''// Covered returns the covered tokens
''','''func (app *application) channelCoverages(grammar grammars.Grammar, pSkip *map[string]bool) ([]coverages.Coverage, error) {
	list := []coverages.Coverage{}
	if !grammar.HasChannels() {
		return list, nil
	}

	for _, oneChannel := range grammar.Channels().List() {
		found, err := app.coveragesToken(oneChannel.Token(), nil, pSkip)
		if err != nil {
			return nil, err
		}

		if found == nil {
			continue
		}

		list = append(list, found.List()...)
	}

	return list, nil
}

// Covered returns the covered tokens
'''))
t("cov-skip-value",(A,'''	rootCoverages, err := app.coveragesToken(root, channels, &skip)
''','''	rootCoverages, err := app.coveragesToken(root, channels, skip)
'''),(A,'''			coverages, err := app.coveragesToken(token, nil, &skip)
''','''			coverages, err := app.coveragesToken(token, nil, skip)
'''),(A,'''channels grammars.Channels, pSkip *map[string]bool) (coverages.Coverages, error) {
	name := token.Name()
	skip := *pSkip
	if _,''','''channels grammars.Channels, skip map[string]bool) (coverages.Coverages, error) {
	name := token.Name()
	if _,'''),(A,'''	skip[name] = true
	pSkip = &skip
''','''	skip[name] = true
'''),(A,'''app.coveragesToken(token, channels, pSkip)''','''app.coveragesToken(token, channels, skip)'''),(A,'''app.coveragesToken(exception, channels, pSkip)''','''app.coveragesToken(exception, channels, skip)'''),(A,'''app.coveragesToken(escape, channels, pSkip)''','''app.coveragesToken(escape, channels, skip)'''))
t("cov-skip-bool",(A,'''	if _, ok := skip[name]; ok {
		return nil, nil
	}

	skip[name]''','''	if skip[name] {
		return nil, nil
	}

	skip[name]'''))
t("cov-lines-index",(A,'''	lines := token.Block().Lines()
	for _, oneLine := range lines {
		containers := oneLine.Containers()
		for _, oneContainer := range containers {
			if oneContainer.IsCompose() {
				continue
			}

			content := oneContainer.Element().Content()
			if content.IsExternal() {
				grammar := content.External().Grammar()
				coverages, err''','''	lines := token.Block().Lines()
	for i := 0; i < len(lines); i++ {
		for _, oneContainer := range lines[i].Containers() {
			if !oneContainer.IsElement() {
				continue
			}

			content := oneContainer.Element().Content()
			if content.IsExternal() {
				grammar := content.External().Grammar()
				coverages, err'''))
EV='''					if everything.HasEscape() {
						escape := everything.Escape()
						coverages, err := app.coveragesToken(escape, channels, pSkip)
						if err != nil {
							return nil, err
						}

						if coverages != nil {
							list = append(list, coverages.List()...)
						}
					}
'''
EX='''					exception := everything.Exception()
					coverages, err := app.coveragesToken(exception, channels, pSkip)
					if err != nil {
						return nil, err
					}

					if coverages != nil {
						list = append(list, coverages.List()...)
					}

'''
t("cov-everything-list",(A,EX+EV,'''					tokens := []grammars.Token{everything.Exception()}
					if everything.HasEscape() {
						tokens = append(tokens, everything.Escape())
					}

					for _, oneToken := range tokens {
						coverages, err := app.coveragesToken(oneToken, channels, pSkip)
						if err != nil {
							return nil, err
						}

						if coverages != nil {
							list = append(list, coverages.List()...)
						}
					}
'''))
t("cov-everything-helper",(A,EX+EV,'''					found, err := app.everythingCoverages(everything, channels, pSkip)
					if err != nil {
						return nil, err
					}

					list = append(list, found...)
'''),(A,'''// Covered returns the covered tokens
''','''func (app *application) everythingCoverages(everything grammars.Everything, channels grammars.Channels, pSkip *map[string]bool) ([]coverages.Coverage, error) {
	list := []coverages.Coverage{}
	found, err := app.coveragesToken(everything.Exception(), channels, pSkip)
	if err != nil {
		return nil, err
	}

	if found != nil {
		list = append(list, found.List()...)
	}

	if !everything.HasEscape() {
		return list, nil
	}

	found, err = app.coveragesToken(everything.Escape(), channels, pSkip)
	if err != nil {
		return nil, err
	}

	if found != nil {
		list = append(list, found.List()...)
	}

	return list, nil
}

// Covered returns the covered tokens
'''))
t("cov-suite-inline-compose",(A,'''	content := suite.Content()
	input, err := app.composeCompose(content)
	if err != nil {
		return nil, err
	}

	tree, _''','''	input, err := app.composeCompose(suite.Content())
	if err != nil {
		return nil, err
	}

	stacks := map[string]*stack{}
	tree, _'''),(A,'''app.token(token, map[string]*stack{}, nil, channels, false, []byte{}, input)
	resultBuilder''','''app.token(token, stacks, nil, channels, false, []byte{}, input)
	resultBuilder'''))
t("cov-suite-ifelse",(A,'''	if tree != nil {
		resultBuilder.WithTree(tree)
	}

	if err != nil {
		resultBuilder.WithError(err.Error())
	}

	result, err := resultBuilder.Now()''','''	if err != nil {
		resultBuilder.WithError(err.Error())
	}

	if tree != nil {
		resultBuilder = resultBuilder.WithTree(tree)
	}

	result, err := resultBuilder.Now()'''))
t("cov-exec-nil-flip",(A,'''			if execution == nil {
				continue
			}

			executionsList = append(executionsList, execution)
''','''			if execution != nil {
				executionsList = append(executionsList, execution)
			}
'''))
t("covered-no-err",(A,'''	err := app.findCoveraredElements(coverages, &coveredElements)
	if err != nil {
		return nil, err
	}

	return coveredElements, nil
''','''	if err := app.findCoveraredElements(coverages, &coveredElements); err != nil {
		return nil, err
	}

	return coveredElements, nil
'''))
t("covered-maps-direct",(A,'''	err := app.findCoveraredElements(coverages, &coveredElements)
''','''	err := app.findCoveraredElements(coverages, coveredElements)
'''),(A,'''coverages coverages.Coverages, pCovered *map[string]map[uint]map[uint]string) error {
	list :=''','''coverages coverages.Coverages, covered map[string]map[uint]map[uint]string) error {
	list :='''),(A,'''app.findCoveraredElementsFromBlock(tokenName, block, pCovered)
''','''app.findCoveraredElementsFromBlock(tokenName, block, covered)
'''),(A,'''block trees.Block, pCovered *map[string]map[uint]map[uint]string) error {
''','''block trees.Block, covered map[string]map[uint]map[uint]string) error {
'''),(A,'''		covered := *pCovered
''',''),(A,'''subBlock, &covered)''','''subBlock, covered)'''),(A,'''
		pCovered = &covered
''',''))
t("covered-lookup-chain",(A,'''		castedElIdx := uint(containerIdx)
		containerIdx++
		if _, ok := covered[tokenName][index][castedElIdx]; !ok {
			covered[tokenName][index][castedElIdx] = elementName
		}
''','''		perLine := covered[tokenName][index]
		if _, ok := perLine[uint(containerIdx)]; !ok {
			perLine[uint(containerIdx)] = elementName
		}

		containerIdx++
'''))
t("covered-position-helper",(A,'''		for containerIdx < len(containersList) && containersList[containerIdx] != oneElement.Grammar() {
			containerIdx++
		}
''','''		containerIdx = positionOf(containersList, oneElement.Grammar(), containerIdx)
'''),(A,'''func (app *application) grammar(''','''func positionOf(list []grammars.Container, container grammars.Container, from int) int {
	for from < len(list) && list[from] != container {
		from++
	}

	return from
}

func (app *application) grammar('''))
t("covered-tree-flip",(A,'''			if !result.IsTree() {
				continue
			}

			block := result.Tree().Block()
			err := app.findCoveraredElementsFromBlock(tokenName, block, pCovered)
			if err != nil {
				return err
			}
''','''			if result.IsTree() {
				err := app.findCoveraredElementsFromBlock(tokenName, result.Tree().Block(), pCovered)
				if err != nil {
					return err
				}
			}
'''))
UN='''	for tokenName, lines := range allElements {
		for lineIdx, elements := range lines {
			for elIdx, element := range elements {
				if _, ok := coveredElements[tokenName][lineIdx][elIdx]; !ok {
					if _, ok := uncoveredElements[tokenName]; !ok {
						uncoveredElements[tokenName] = map[uint]map[uint]string{}
					}

					if _, ok := uncoveredElements[tokenName][lineIdx]; !ok {
						uncoveredElements[tokenName][lineIdx] = map[uint]string{}
					}

					uncoveredElements[tokenName][lineIdx][elIdx] = element
				}
			}
		}

	}
'''
t("uncovered-continue",(A,UN,'''	for tokenName, lines := range allElements {
		for lineIdx, elements := range lines {
			for elIdx, element := range elements {
				if _, isCovered := coveredElements[tokenName][lineIdx][elIdx]; isCovered {
					continue
				}

				if _, ok := uncoveredElements[tokenName]; !ok {
					uncoveredElements[tokenName] = map[uint]map[uint]string{}
				}

				if _, ok := uncoveredElements[tokenName][lineIdx]; !ok {
					uncoveredElements[tokenName][lineIdx] = map[uint]string{}
				}

				uncoveredElements[tokenName][lineIdx][elIdx] = element
			}
		}
	}
'''))
t("uncovered-nil-maps",(A,UN,UN.replace("if _, ok := uncoveredElements[tokenName]; !ok {","if uncoveredElements[tokenName] == nil {").replace("if _, ok := uncoveredElements[tokenName][lineIdx]; !ok {","if uncoveredElements[tokenName][lineIdx] == nil {")))
t("uncovered-helper",(A,UN,'''	for tokenName, lines := range allElements {
		for lineIdx, elements := range lines {
			for elIdx, element := range elements {
				if _, ok := coveredElements[tokenName][lineIdx][elIdx]; !ok {
					addElement(uncoveredElements, tokenName, lineIdx, elIdx, element)
				}
			}
		}
	}
'''),(A,'''func (app *application) grammar(''','''func addElement(elements map[string]map[uint]map[uint]string, name string, line uint, idx uint, element string) {
	if _, ok := elements[name]; !ok {
		elements[name] = map[uint]map[uint]string{}
	}

	if _, ok := elements[name][line]; !ok {
		elements[name][line] = map[uint]string{}
	}

	elements[name][line][idx] = element
}

func (app *application) grammar('''))
t("uncovered-all-first",(A,'''	coverages, err := app.Coverages(grammar)
	if err != nil {
		return nil, err
	}

	coveredElements := map[string]map[uint]map[uint]string{}
	if coverages != nil {
		coveredElements, err = app.Covered(coverages)
		if err != nil {
			return nil, err
		}
	}

	allElements := map[string]map[uint]map[uint]string{}
	err = app.findElements(grammar, &allElements)
	if err != nil {
		return nil, err
	}
''','''	allElements := map[string]map[uint]map[uint]string{}
	err := app.findElements(grammar, &allElements)
	if err != nil {
		return nil, err
	}

	coverages, err := app.Coverages(grammar)
	if err != nil {
		return nil, err
	}

	coveredElements := map[string]map[uint]map[uint]string{}
	if coverages != nil {
		coveredElements, err = app.Covered(coverages)
		if err != nil {
			return nil, err
		}
	}
'''))
t("uncovered-covered-helper",(A,'''	coverages, err := app.Coverages(grammar)
	if err != nil {
		return nil, err
	}

	coveredElements := map[string]map[uint]map[uint]string{}
	if coverages != nil {
		coveredElements, err = app.Covered(coverages)
		if err != nil {
			return nil, err
		}
	}

	allElements''','''	coveredElements, err := app.coveredOf(grammar)
	if err != nil {
		return nil, err
	}

	allElements'''),(A,'''func (app *application) grammar(''','''func (app *application) coveredOf(grammar grammars.Grammar) (map[string]map[uint]map[uint]string, error) {
	coverages, err := app.Coverages(grammar)
	if err != nil {
		return nil, err
	}

	if coverages == nil {
		return map[string]map[uint]map[uint]string{}, nil
	}

	return app.Covered(coverages)
}

func (app *application) grammar('''))
t("elements-void",(A,'''	err = app.findElements(grammar, &allElements)
	if err != nil {
		return nil, err
	}
''','''	app.findElements(grammar, allElements)
'''),(A,'''func (app *application) findElements(grammar grammars.Grammar, pElements *map[string]map[uint]map[uint]string) error {
	elements := *pElements
	root := grammar.Root()
	err := app.findElementsFromToken(root, &elements)
	if err != nil {
		return err
	}

	if grammar.HasChannels() {
		channels := grammar.Channels().List()
		for _, oneChannel := range channels {
			token := oneChannel.Token()
			err := app.findElementsFromToken(token, &elements)
			if err != nil {
				return err
			}
		}
	}

	return nil
}
''','''func (app *application) findElements(grammar grammars.Grammar, elements map[string]map[uint]map[uint]string) {
	app.findElementsFromToken(grammar.Root(), elements)
	if !grammar.HasChannels() {
		return
	}

	for _, oneChannel := range grammar.Channels().List() {
		app.findElementsFromToken(oneChannel.Token(), elements)
	}
}
'''),(A,'''func (app *application) findElementsFromToken(token grammars.Token, pElements *map[string]map[uint]map[uint]string) error {
	elements := *pElements
''','''func (app *application) findElementsFromToken(token grammars.Token, elements map[string]map[uint]map[uint]string) {
'''),(A,'''				err := app.findElements(grammar, &elements)
				if err != nil {
					return err
				}
''','''				app.findElements(grammar, elements)
'''),(A,'''					err := app.findElementsFromToken(token, &elements)
					if err != nil {
						return err
					}
				}

				if instance''','''					app.findElementsFromToken(token, elements)
				}

				if instance'''),(A,'''					err := app.findElementsFromToken(exception, &elements)
					if err != nil {
						return err
					}
''','''					app.findElementsFromToken(exception, elements)
'''),(A,'''						err := app.findElementsFromToken(escape, &elements)
						if err != nil {
							return err
						}
''','''						app.findElementsFromToken(escape, elements)
'''),(A,'''	pElements = &elements
	return nil
''',''))
t("elements-line-map",(A,'''		castedIdx := uint(idx)
		if _, ok := elements[tokenName][castedIdx]; !ok {
			elements[tokenName][castedIdx] = map[uint]string{}
		}
''','''		castedIdx := uint(idx)
		perToken := elements[tokenName]
		if _, ok := perToken[castedIdx]; !ok {
			perToken[castedIdx] = map[uint]string{}
		}
'''))
