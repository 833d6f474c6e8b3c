// Package vbyp is the instrumented activity that wants no validation.
package vbyp

import (
	"github.com/project-flogo/core/activity"
	"verif/harness/vact"
)

const Ref = "verif/harness/vbyp"

func init() {
	_ = activity.Register(&Activity{}, New)
}

func New(ctx activity.InitContext) (activity.Activity, error) {
	a, err := vact.New(ctx)
	if err != nil {
		return nil, err
	}
	return &Activity{A: a.(*vact.Activity)}, nil
}

type Activity struct{ A *vact.Activity }

func (a *Activity) Metadata() *activity.Metadata { return (&vact.Activity{}).Metadata() }

func (a *Activity) Eval(ctx activity.Context) (bool, error) { return a.A.Eval(ctx) }

func (a *Activity) BypassValidation() bool { return true }

func (a *Activity) Cleanup() error { return a.A.Cleanup() }
