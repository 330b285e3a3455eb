import sys; sys.path.insert(0, "/verif/tools")
from refactor import *
A="libs/asts/applications/application.go"
T="libs/asts/domain/trees/"
only=set(sys.argv[1:])
def t(name, *edits):
    if only and name not in only: return
    try_(name, edits)
t("compose-inline",(A,'''		compose := oneContainer.Compose()
		data, err := app.composeCompose(compose)
		if err != nil {
			return nil, err
		}

		output = append(output, data...)
''','''		for _, oneElement := range oneContainer.Compose().List() {
			for i := uint(0); i < oneElement.Occurences(); i++ {
				output = append(output, oneElement.Value().Number())
			}
		}
'''))
t("compose-repeat",(A,'''		number := oneElement.Value().Number()
		occurences := int(oneElement.Occurences())
		for i := 0; i < occurences; i++ {
			output = append(output, number)
		}
''','''		output = append(output, app.repeat(oneElement.Value().Number(), oneElement.Occurences())...)
'''),(A,'''func (app *application) composeCompose(''','''func (app *application) repeat(number byte, times uint) []byte {
	output := make([]byte, 0, times)
	for times > 0 {
		output = append(output, number)
		times--
	}

	return output
}

func (app *application) composeCompose('''))
t("compose-validate-first",(A,'''	for idx, oneContainer := range containers {
		if oneContainer.IsElement() {
			str := fmt.Sprintf("the token (name: %s) contains a Container (index: %d) that is an Element at line (index: %d) and therefore cannot be used to execute a Compose request", token.Name(), idx, 0)
			return nil, errors.New(str)
		}

		compose''','''	for idx, oneContainer := range containers {
		if oneContainer.IsElement() {
			str := fmt.Sprintf("the token (name: %s) contains a Container (index: %d) that is an Element at line (index: %d) and therefore cannot be used to execute a Compose request", token.Name(), idx, 0)
			return nil, errors.New(str)
		}
	}

	for _, oneContainer := range containers {
		compose'''))
t("compose-iscompose",(A,'''		if oneContainer.IsElement() {
			str := fmt.Sprintf("the token (name: %s) contains a Container (index: %d) that is an Element at''','''		if !oneContainer.IsCompose() {
			str := fmt.Sprintf("the token (name: %s) contains a Container (index: %d) that is an Element at'''))
t("elem-bytes-content",(T+"element.go",'''		if oneContent.IsValue() {
			value := oneContent.Value()
			if includeChannels && value.HasPrefix() {
				output = append(output, value.Prefix().Bytes(includeChannels)...)
			}

			output = append(output, value.Content())
			continue
		}

		output = append(output, oneContent.Tree().Bytes(includeChannels)...)
''','''		output = append(output, oneContent.Bytes(includeChannels)...)
'''))
t("elem-bytes-switch",(T+"element.go",'''		if oneContent.IsValue() {
			value := oneContent.Value()
			if includeChannels && value.HasPrefix() {
				output = append(output, value.Prefix().Bytes(includeChannels)...)
			}

			output = append(output, value.Content())
			continue
		}

		output = append(output, oneContent.Tree().Bytes(includeChannels)...)
''','''		switch {
		case oneContent.IsTree():
			output = append(output, oneContent.Tree().Bytes(includeChannels)...)
		default:
			value := oneContent.Value()
			if value.HasPrefix() && includeChannels {
				output = append(output, value.Prefix().Bytes(includeChannels)...)
			}

			output = append(output, value.Content())
		}
'''))
t("content-bytes-early",(T+"content.go",'''	if obj.IsValue() {
		output := []byte{}
		value := obj.Value()
		if includeChannels && value.HasPrefix() {
			output = append(output, value.Prefix().Bytes(includeChannels)...)
		}

		return append(output, value.Content())
	}

	return obj.Tree().Bytes(includeChannels)
''','''	if !obj.IsValue() {
		return obj.tree.Bytes(includeChannels)
	}

	if !includeChannels || !obj.value.HasPrefix() {
		return []byte{obj.value.Content()}
	}

	return append(obj.value.Prefix().Bytes(includeChannels), obj.value.Content())
'''))
t("tree-bytes-if",(T+"tree.go",'''	output := []byte{}
	if !obj.block.HasSuccessful() {
		return output
	}

	elements := obj.block.Successful().Elements().List()
	for _, oneElement := range elements {
		output = append(output, oneElement.Bytes(includeChannels)...)
	}

	if includeChannels && obj.HasSuffix() {
		output = append(output, obj.Suffix().Bytes(includeChannels)...)
	}

	return output
''','''	var output []byte
	if obj.block.HasSuccessful() {
		for _, oneElement := range obj.block.Successful().Elements().List() {
			for _, oneByte := range oneElement.Bytes(includeChannels) {
				output = append(output, oneByte)
			}
		}

		if !includeChannels {
			return output
		}

		if obj.suffix != nil {
			output = append(output, obj.suffix.Bytes(includeChannels)...)
		}
	}

	return output
'''))
t("tree-bytes-helper",(T+"tree.go",'''	for _, oneElement := range elements {
		output = append(output, oneElement.Bytes(includeChannels)...)
	}

	if includeChannels && obj.HasSuffix() {
		output = append(output, obj.Suffix().Bytes(includeChannels)...)
	}

	return output
''','''	for _, oneElement := range elements {
		output = append(output, oneElement.Bytes(includeChannels)...)
	}

	return append(output, obj.suffixBytes(includeChannels)...)
}

func (obj *tree) suffixBytes(includeChannels bool) []byte {
	if !includeChannels || !obj.HasSuffix() {
		return nil
	}

	return obj.Suffix().Bytes(includeChannels)
'''))
t("block-local",(T+"block_builder.go",'''	var successful Line
	for _, oneLine := range app.lines {
		if oneLine.IsSuccessful() {
			successful = oneLine
			break
		}
	}

	if successful != nil {
		return createBlockWithSuccessful(app.lines, successful), nil
	}

	return createBlock(app.lines), nil
''','''	for idx := range app.lines {
		if app.lines[idx].IsSuccessful() {
			return createBlockWithSuccessful(app.lines, app.lines[idx]), nil
		}
	}

	return createBlock(app.lines), nil
'''))
t("block-helper",(T+"block_builder.go",'''	var successful Line
	for _, oneLine := range app.lines {
		if oneLine.IsSuccessful() {
			successful = oneLine
			break
		}
	}

	if successful != nil {
		return createBlockWithSuccessful(app.lines, successful), nil
	}

	return createBlock(app.lines), nil
''','''	successful, isFound := app.firstSuccessful()
	if !isFound {
		return createBlock(app.lines), nil
	}

	return createBlockWithSuccessful(app.lines, successful), nil
}

func (app *blockBuilder) firstSuccessful() (Line, bool) {
	for _, oneLine := range app.lines {
		if !oneLine.IsSuccessful() {
			continue
		}

		return oneLine, true
	}

	return nil, false
'''))
t("block-len",(T+"block_builder.go",'''	if app.lines != nil && len(app.lines) <= 0 {
		app.lines = nil
	}

	if app.lines == nil {
		return''','''	if len(app.lines) == 0 {
		return'''))
t("elem-successful",(T+"element.go",'''	if !obj.HasGrammar() {
		return true
	}

	amount := obj.Amount()
	if obj.grammar.IsElement() {
		cardinality := obj.grammar.Element().Cardinality()
		min := cardinality.Min()
		if amount < min {
			return false
		}

		if cardinality.HasMax() {
			pMax := cardinality.Max()
			if amount > *pMax {
				return false
			}
		}

		return true
	}

	requestedAmount := uint(0)
	composeList := obj.grammar.Compose().List()
	for _, oneCompose := range composeList {
		requestedAmount += oneCompose.Occurences()
	}

	if amount < requestedAmount {
		return false
	}

	return true
''','''	if obj.grammar == nil {
		return true
	}

	amount := obj.Amount()
	if obj.grammar.IsCompose() {
		requestedAmount := uint(0)
		for _, oneCompose := range obj.grammar.Compose().List() {
			requestedAmount = oneCompose.Occurences() + requestedAmount
		}

		return amount >= requestedAmount
	}

	cardinality := obj.grammar.Element().Cardinality()
	if cardinality.HasMax() && amount > *cardinality.Max() {
		return false
	}

	return amount >= cardinality.Min()
'''))
t("elem-successful-helper",(T+"element.go",'''		min := cardinality.Min()
		if amount < min {
			return false
		}

		if cardinality.HasMax() {
			pMax := cardinality.Max()
			if amount > *pMax {
				return false
			}
		}

		return true
	}
''','''		isUnder := cardinality.HasMax() && *cardinality.Max() < amount
		return cardinality.Min() <= amount && !isUnder
	}
'''))
t("line-compose-helper",(T+"line.go",'''			requestedOccurences := uint(0)
			compose := oneContainer.Compose()
			requestedComposeElements := compose.List()
			for _, oneElement := range requestedComposeElements {
				requestedOccurences += oneElement.Occurences()
			}
''','''			compose := oneContainer.Compose()
			requestedOccurences := occurences(compose)
'''),(T+"line.go",'''func (obj *line) indexOf(''','''func occurences(compose grammars.Compose) uint {
	total := uint(0)
	for _, oneElement := range compose.List() {
		total += oneElement.Occurences()
	}

	return total
}

func (obj *line) indexOf('''))
t("line-else",(T+"line.go",'''		if oneContainer.IsElement() {
			requestedElement := oneContainer.Element()
			requestedMin := requestedElement.Cardinality().Min()
			if requestedMin <= 0 {
				continue
			}

			requestedName''','''		if !oneContainer.IsCompose() {
			requestedElement := oneContainer.Element()
			requestedMin := requestedElement.Cardinality().Min()
			if requestedMin == 0 {
				continue
			}

			requestedName'''))
t("line-reverse-first",(T+"line.go",'''	for _, oneElement := range elements {
		if !oneElement.IsSuccessful() {
			return false
		}
	}

	if obj.IsReverse() {
		return true
	}
''','''	if !obj.allSuccessful() {
		return false
	}

	if obj.isReverse {
		return true
	}
'''),(T+"line.go",'''func (obj *line) indexOf(''','''func (obj *line) allSuccessful() bool {
	for _, oneElement := range obj.elements.List() {
		if !oneElement.IsSuccessful() {
			return false
		}
	}

	return true
}

func (obj *line) indexOf('''))
t("line-indexof-inline",(T+"line.go",'''	for idx := from; idx < len(list); idx++ {
		element := list[idx]
		if !element.HasGrammar() || element.Grammar().Name() != name {
			continue
		}

		if element.Amount() >= amount {
			return idx
		}
	}
''','''	for idx := from; idx < len(list); idx++ {
		element := list[idx]
		if element.HasGrammar() && element.Grammar().Name() == name && element.Amount() >= amount {
			return idx
		}
	}
'''))
t("line-indexof-bool",(T+"line.go",'''	for idx := from; idx < len(list); idx++ {
		element := list[idx]
		if !element.HasGrammar() || element.Grammar().Name() != name {
			continue
		}

		if element.Amount() >= amount {
			return idx
		}
	}

	return -1
''','''	for from < len(list) {
		element := list[from]
		if element.HasGrammar() && name == element.Grammar().Name() && !(element.Amount() < amount) {
			return from
		}

		from++
	}

	return -1
'''))
t("line-common",(T+"line.go",'''			requestedName := requestedElement.Name()
			index := obj.indexOf(requestedName, requestedMin, from)
			if index < 0 {
				return false
			}

			from = index + 1
''','''			index := obj.indexOf(oneContainer.Name(), requestedMin, from)
			if index < 0 {
				return false
			}

			from = index + 1
'''))
