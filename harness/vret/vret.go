// Package vret is an activity that replies or returns explicitly (by its
// details) and has no factory, so that all tasks share one instance.
package vret

import (
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/metadata"
)

const Ref = "verif/harness/vret"

type Activity struct{}

func init() { _ = activity.Register(&Activity{}) }

// Hook, if set, is what the activity does.
var Hook func(ctx activity.Context) (bool, error)

func (*Activity) Metadata() *activity.Metadata {
	return &activity.Metadata{IOMetadata: &metadata.IOMetadata{Input: map[string]data.TypedValue{"n": data.NewTypedValue(data.TypeInt, nil)}}}
}

func (*Activity) Details() *activity.Details { return &activity.Details{IsReturn: true} }

func (*Activity) Eval(ctx activity.Context) (bool, error) {
	if Hook != nil {
		return Hook(ctx)
	}
	return true, nil
}
