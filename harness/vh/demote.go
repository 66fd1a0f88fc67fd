package main

import (
	"fmt"
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"
)

// own is a validator as users of the package make them
type own struct {
	validator.AbstractValidator
	walk []string
}

func (o *own) Clear() {
	o.AbstractValidator.Clear()
	o.walk = []string{}
}

func (o *own) Validate(e parser.Expression) {
	at := func(e parser.Expression) string { return str(kind(e) + "@" + num(e.ByteOffset())) }
	chain := []string{at(e)}
	c := o.Container()
	if c != o.ContainerOf(e) {
		chain = append(chain, str("Container() differs from ContainerOf()"))
	}
	for ; c != nil && len(chain) < 10000; c = o.ContainerOf(c) {
		chain = append(chain, at(c))
	}
	if o.ContainerOf(&parser.Nop{}) != nil {
		chain = append(chain, str("ContainerOf() what is elsewhere"))
	}
	o.walk = append(o.walk, tuple(chain...))
	switch e := e.(type) {
	case *parser.LiteralInteger:
		o.Accept(validator.ValidateDuplicateKey, e, issue.H{"key": e.Int()})
	case *parser.QualifiedName:
		o.Accept(validator.ValidateFutureReservedWord, e, issue.H{"word": e.Name()})
	case *parser.VariableExpression:
		o.Accept(validator.ValidateIllegalAssignmentContext, e, issue.NoArgs)
	case *parser.BlockExpression, *parser.LiteralList:
		o.Accept(validator.ValidateIdemExpressionNotLast, e, issue.H{"expression": e})
	}
}

// demoter is what all validators are, also those that come with the package
type demoter interface {
	Demote(code issue.Code, severity issue.Severity)
}

func demote(v validator.Validator, code string, level int) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = refused(fmt.Sprint(r), map[string]string{"hard issue": "hard", "severity level": "level", "no issue found": "unknown"})
		}
	}()
	v.(demoter).Demote(issue.Code(code), issue.Severity(level))
	return str("ok")
}

func refused(m string, is map[string]string) string {
	for k, v := range is {
		if strings.Contains(m, k) {
			return str(v)
		}
	}
	return tuple(str("CRASH"), message(m))
}

func strict(said string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = refused(fmt.Sprint(r), map[string]string{"Invalid Strictness": "invalid"})
		}
	}()
	return str(validator.Strict(said).String())
}

func once(sort string, e parser.Expression) validator.Validator {
	switch sort {
	case "0":
		return validator.ValidatePuppet(e, validator.StrictOff)
	case "1":
		return validator.ValidatePuppet(e, validator.StrictWarning)
	case "2":
		return validator.ValidatePuppet(e, validator.Strict("error"))
	case "3":
		return validator.ValidateTasks(e)
	}
	return validator.ValidateWorkflow(e)
}
