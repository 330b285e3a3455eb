import sys; sys.path.insert(0, "/verif/tools")
from refactor import *
A="libs/interpreters/applications/application.go"
try_("compile-helpers",[(A,'''	if appIns, ok := inApplications[applicationNameStr]; ok {
		target := variable.Target()
		attachment, err := app.attachmentBuilder.Create().WithValue(currentValue).WithLocal(target).Now()
		if err != nil {
			return nil, err
		}

		attachmentsList := []programs.Attachment{}
		if appIns.HasAttachments() {
			attachmentsList = appIns.Attachments().List()
		}

		attachmentsList = append(attachmentsList, attachment)
		attachments, err := app.attachmentsBuilder.Create().WithList(attachmentsList).Now()
		if err != nil {
			return nil, err
		}

		index := appIns.Index()
		module := appIns.Module()
		updatedAppIns, err := app.applicationBuilder.Create().WithIndex(index).WithModule(module).WithAttachments(attachments).Now()
		if err != nil {
			return nil, err
		}

		inApplications[applicationNameStr] = updatedAppIns
		return inApplications, nil
	}

	str := fmt.Sprintf("the application (name: %s) is undeclared and therefore cannot be used in an attachment", applicationName)
	return nil, errors.New(str)
}
''','''	appIns, ok := inApplications[applicationNameStr]
	if !ok {
		str := fmt.Sprintf("the application (name: %s) is undeclared and therefore cannot be used in an attachment", applicationName)
		return nil, errors.New(str)
	}

	updated, err := app.attach(appIns, currentValue, variable.Target())
	if err != nil {
		return nil, err
	}

	inApplications[applicationNameStr] = updated
	return inApplications, nil
}

func (app *application) attach(appIns programs.Application, value programs.Value, target uint) (programs.Application, error) {
	builder := app.attachmentBuilder.Create()
	builder.WithLocal(target)
	builder.WithValue(value)
	attachment, err := builder.Now()
	if err != nil {
		return nil, err
	}

	all := []programs.Attachment{}
	if appIns.HasAttachments() {
		for _, one := range appIns.Attachments().List() {
			all = append(all, one)
		}
	}

	list, err := app.attachmentsBuilder.Create().WithList(append(all, attachment)).Now()
	if err != nil {
		return nil, err
	}

	return app.applicationBuilder.Create().WithModule(appIns.Module()).WithIndex(appIns.Index()).WithAttachments(list).Now()
}
'''),(A,'''	inputParameterIndex := uint(0)
	for _, oneParameter := range inParameters {
		if !oneParameter.parameter.IsInput() {
			continue
		}

		inputParameterIndex++
	}

	inParameters[parameterNameStr] = &parameter{
		allParameterIndex:   uint(len(inParameters)),
		inputParameterIndex: inputParameterIndex,
		parameter:           parameterIns,
	}

	return inParameters, nil
}
''','''	ins := new(parameter)
	ins.parameter = parameterIns
	ins.inputParameterIndex = countInputs(inParameters)
	ins.allParameterIndex = uint(len(inParameters))
	inParameters[parameterNameStr] = ins
	return inParameters, nil
}

func countInputs(list map[string]*parameter) uint {
	amount := 0
	for name := range list {
		if list[name].parameter.IsInput() {
			amount += 1
		}
	}

	return uint(amount)
}
''')])
try_("compile-switch",[(A,'''	if value.IsVariable() {
		assignedVariable := value.Variable()
		assignedVariableNameStr := app.nameBytesToStringFn(assignedVariable)
		if parameter, ok := inParameters[assignedVariableNameStr]; ok {
			if !parameter.parameter.IsInput() {
				str := fmt.Sprintf("the assignment (name: %s) is using an output variable (nme: %s) as value", variableNameStr, assignedVariableNameStr)
				return nil, errors.New(str)
			}

			builder.WithInput(parameter.inputParameterIndex)
		} else {
			str := fmt.Sprintf("the assignment (name: %s) is using an undefined parameter (name: %s) as value", variableNameStr, assignedVariableNameStr)
			return nil, errors.New(str)
		}
	}

	if value.IsConstant() {
		constant := value.Constant()
		builder.WithConstant(constant)
	}

	if value.IsInstructions() {
		subInstructions := value.Instructions()
		subProgram, err := app.Compile(allModules, subInstructions)
		if err != nil {
			return nil, err
		}

		builder.WithProgram(subProgram)
	}

	if value.IsExecution() {
''','''	switch {
	case value.IsConstant():
		builder.WithConstant(value.Constant())
	case value.IsInstructions():
		subProgram, err := app.Compile(allModules, value.Instructions())
		if err != nil {
			return nil, err
		}

		return app.valueBuilder.Create().WithProgram(subProgram).Now()
	case value.IsVariable():
		name := app.nameBytesToStringFn(value.Variable())
		found, ok := inParameters[name]
		if !ok || !found.parameter.IsInput() {
			return nil, fmt.Errorf("the assignment (name: %s) cannot use the parameter (name: %s) as value", variableNameStr, name)
		}

		builder = builder.WithInput(found.inputParameterIndex)
	default:
'''),(A,'''	outOutput := inOutput
		if param, ok := inParameters[variableNameStr]; ok {
			if !param.parameter.IsInput() {
				outOutput = append(outOutput, uint(len(inInstructions)))
			}
		}

		outInstructions := append(inInstructions, ins)
''','''	outInstructions := append(inInstructions, ins)
		outOutput := inOutput
		param, ok := inParameters[variableNameStr]
		if ok && !param.parameter.IsInput() {
			outOutput = append(outOutput, uint(len(outInstructions)-1))
		}

''')])
try_("compile-index-loop",[(A,'''	for idx, oneInstruction := range list {
		outModules, outApp''','''	for idx := 0; idx < len(list); idx++ {
		oneInstruction := list[idx]
		outModules, outApp'''),(A,'''	builder := app.builder.Create().WithInstructions(ins)
	if len(inOutput) > 0 {
		builder.WithOutputs(inOutput)
	}

	return builder.Now()
''','''	if len(inOutput) == 0 {
		return app.builder.Create().WithInstructions(ins).Now()
	}

	return app.builder.Create().WithOutputs(inOutput).WithInstructions(ins).Now()
''')])
