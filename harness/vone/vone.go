// Package vone is the instrumented activity that all tasks share.
package vone

import (
	"github.com/project-flogo/core/activity"
	"verif/harness/vact"
)

const Ref = "verif/harness/vone"

// One is what all tasks share.
var One = &Activity{A: &vact.Activity{}}

// CleanHook is called when the activity is cleaned up.
var CleanHook func() error

func init() {
	_ = activity.Register(One)
}

type Activity struct{ A *vact.Activity }

func (a *Activity) Metadata() *activity.Metadata { return a.A.Metadata() }

func (a *Activity) Eval(ctx activity.Context) (bool, error) { return a.A.Eval(ctx) }

func (a *Activity) Cleanup() error {
	if CleanHook != nil {
		return CleanHook()
	}
	return nil
}
