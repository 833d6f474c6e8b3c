// Package vpost is an activity that calls a flow, like the subflow activity,
// and wants to be told when that flow has ended.
package vpost

import (
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/flow/activity/subflow"
)

// Hook is called when the flow has ended.
var Hook func(ctx activity.Context) (bool, error)

func init() {
	_ = activity.Register(&Activity{SubFlowActivity: &subflow.SubFlowActivity{}}, New)
}

func New(ctx activity.InitContext) (activity.Activity, error) {
	a, err := subflow.New(ctx)
	if err != nil {
		return nil, err
	}
	return &Activity{SubFlowActivity: a.(*subflow.SubFlowActivity)}, nil
}

type Activity struct{ *subflow.SubFlowActivity }

func (a *Activity) PostEval(ctx activity.Context, userData interface{}) (bool, error) {
	return Hook(ctx)
}
