// Package vleg is the instrumented activity of the old kind.
package vleg

import (
	"github.com/project-flogo/core/activity"
	"verif/harness/vact"
)

const Ref = "verif-legacy"

func init() {
	_ = activity.LegacyRegister(Ref, &Activity{A: &vact.Activity{}})
}

type Activity struct{ A *vact.Activity }

func (a *Activity) Metadata() *activity.Metadata { return a.A.Metadata() }

func (a *Activity) Eval(ctx activity.Context) (bool, error) { return a.A.Eval(ctx) }
