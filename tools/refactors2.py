import sys; sys.path.insert(0, "/verif/tools")
from refactor import *
A="libs/interpreters/applications/application.go"
try_("exec-swap-helper",[(A,'''		if oneInstruction.IsValue() {
			value := oneInstruction.Value()
			ins, err := app.executeValue(input, valueHashes, value)
			if err != nil {
				str := fmt.Sprintf("there was an error while executing an assignment (index: %d): %s", idx, err.Error())
				return nil, errors.New(str)
			}

			valueIndexes[uint(idx)] = ins
			continue
		}

		execution := oneInstruction.Execution()
		_, err := app.execute(input, valueHashes, execution)
		if err != nil {
			appIndex := execution.Index()
			moduleIndex := execution.Module().Index()
			str := fmt.Sprintf("there was an error while executing an application (module: %d, application: %d, instruction: %d): %s", moduleIndex, appIndex, idx, err.Error())
			return nil, errors.New(str)
		}
	}
''','''		if oneInstruction.IsExecution() {
			if _, err := app.execute(input, valueHashes, oneInstruction.Execution()); err != nil {
				return nil, fmt.Errorf("execution (instruction: %d): %s", idx, err.Error())
			}

			continue
		}

		ins, err := app.executeValue(input, valueHashes, oneInstruction.Value())
		if err != nil {
			str := fmt.Sprintf("there was an error while executing an assignment (index: %d): %s", idx, err.Error())
			return nil, errors.New(str)
		}

		valueIndexes[uint(idx)] = ins
	}
'''),(A,'''	filtered := []interface{}{}
	if program.HasOutputs() {
		outputs := program.Outputs()
		for _, oneOutput := range outputs {
			if ins, ok := valueIndexes[oneOutput]; ok {
				filtered = append(filtered, ins)
				continue
			}

			str := fmt.Sprintf("the program has an output parameter (%d), but the executed program does not contain that value", oneOutput)
			return nil, errors.New(str)
		}
	}

	return filtered, nil
}
''','''	return app.outputs(program, valueIndexes)
}

func (app *application) outputs(program programs.Program, valueIndexes map[uint]interface{}) ([]interface{}, error) {
	if !program.HasOutputs() {
		return []interface{}{}, nil
	}

	outputs := program.Outputs()
	filtered := make([]interface{}, 0, len(outputs))
	for i := 0; i < len(outputs); i++ {
		ins, ok := valueIndexes[outputs[i]]
		if !ok {
			str := fmt.Sprintf("the program has an output parameter (%d), but the executed program does not contain that value", outputs[i])
			return nil, errors.New(str)
		}

		filtered = append(filtered, ins)
	}

	return filtered, nil
}
''')])
try_("exec-drop-dead-param",[(A,'''	valueHashes := map[string]interface{}{}
''',''),(A,"app.executeValue(input, valueHashes, value)","app.executeValue(input, value)"),(A,"app.execute(input, valueHashes, execution)","app.execute(input, execution)"),
(A,"executeValue(input []interface{}, values map[string]interface{}, value","executeValue(input []interface{}, value"),(A,"execute(input []interface{}, values map[string]interface{}, execution","execute(input []interface{}, execution"),
(A,"app.executeValue(input, values, attachedValue)","app.executeValue(input, attachedValue)"),(A,"app.execute(input, values, execution)","app.execute(input, execution)")])
try_("exec-switch-value",[(A,'''	if value.IsInput() {
		pInputIndex := value.Input()
		if *pInputIndex >= uint(len(input)) {
			str := fmt.Sprintf("the requested input variable (index: %d) is undefined", *pInputIndex)
			return nil, errors.New(str)
		}

		return input[*pInputIndex], nil
	}

	if value.IsConstant() {
		return value.Constant(), nil
	}

	if value.IsProgram() {
		subProgram := value.Program()
		subProgramOutput, err := app.Execute(input, subProgram)
		if err != nil {
			return nil, err
		}

		return subProgramOutput, nil
	}

	execution := value.Execution()
	return app.execute(input, values, execution)
''','''	switch {
	case value.IsProgram():
		return app.Execute(input, value.Program())
	case value.IsExecution():
		return app.execute(input, values, value.Execution())
	case value.IsConstant():
		return value.Constant(), nil
	}

	index := int(*value.Input())
	if index < len(input) {
		return input[index], nil
	}

	return nil, errors.New("undefined input")
'''),(A,'''	module := execution.Module()
	parameters := map[uint]interface{}{}
	if execution.HasAttachments() {
		attachments := execution.Attachments().List()
		for _, oneAttachment := range attachments {
			attachedValue := oneAttachment.Value()
			ins, err := app.executeValue(input, values, attachedValue)
			if err != nil {
				return nil, err
			}

			local := oneAttachment.Local()
			parameters[local] = ins
		}
	}

	execFn := module.Func()
	return execFn(parameters)
}
''','''	parameters, err := app.attached(input, values, execution)
	if err != nil {
		return nil, err
	}

	return execution.Module().Func()(parameters)
}

func (app *application) attached(input []interface{}, values map[string]interface{}, execution programs.Application) (map[uint]interface{}, error) {
	out := map[uint]interface{}{}
	if !execution.HasAttachments() {
		return out, nil
	}

	for _, one := range execution.Attachments().List() {
		ins, err := app.executeValue(input, values, one.Value())
		if err != nil {
			return nil, err
		}

		out[one.Local()] = ins
	}

	return out, nil
}
''')])
try_("exec-flag",[(A,'''		for _, oneOutput := range outputs {
			if ins, ok := valueIndexes[oneOutput]; ok {
				filtered = append(filtered, ins)
				continue
			}

			str := fmt.Sprintf("the program has an output parameter (%d), but the executed program does not contain that value", oneOutput)
			return nil, errors.New(str)
		}
''','''		missing := false
		for _, oneOutput := range outputs {
			ins, ok := valueIndexes[oneOutput]
			if !ok {
				missing = true
				break
			}

			filtered = append(filtered, ins)
		}

		if missing {
			return nil, errors.New("an output has no value")
		}
''')])
try_("noop",[(A,'''	instructions := program.Instructions().List()
''','''	instructions := program.Instructions().List()
	_ = len(instructions)
''')])
