// Package vact is the instrumented activity used in generated flows.
package vact

import (
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/metadata"
	"github.com/project-flogo/core/support/log"
)

const Ref = "verif/harness/vact"

// Hook is called for every evaluation of the activity.
var Hook func(a *Activity, ctx activity.Context) (bool, error)

// ReconfHook is called for every reconfiguration.
var ReconfHook func(a *Activity, settings map[string]interface{}) error

// NewHook is called for every activity that is created, CleanHook for every one that is cleaned up.
var (
	NewHook   func(a *Activity, ctx activity.InitContext)
	CleanHook func(a *Activity) error
)

func tv(m map[string]data.Type) map[string]data.TypedValue {
	r := map[string]data.TypedValue{}
	for k, t := range m {
		r[k] = data.NewTypedValue(t, nil)
	}
	return r
}

var md = &activity.Metadata{
	Settings: tv(map[string]data.Type{"cfg": data.TypeAny, "num": data.TypeInt, "str": data.TypeString, "obj": data.TypeObject}),
	IOMetadata: &metadata.IOMetadata{
		Input: tv(map[string]data.Type{"a": data.TypeAny, "b": data.TypeAny, "c": data.TypeAny, "k": data.TypeAny,
			"s": data.TypeString, "i": data.TypeInt, "n": data.TypeFloat64, "q": data.TypeBool,
			"o": data.TypeObject, "arr": data.TypeArray, "pid": data.TypeString, "pt": data.TypeString}),
		Output: tv(map[string]data.Type{"val": data.TypeAny, "tag": data.TypeString, "i": data.TypeInt,
			"o": data.TypeObject, "arr": data.TypeArray, "in": data.TypeAny}),
	},
}

func init() {
	_ = activity.Register(&Activity{}, New)
}

func New(ctx activity.InitContext) (activity.Activity, error) {
	m := map[string]interface{}{}
	for k, v := range ctx.Settings() {
		m[k] = v
	}
	a := &Activity{Settings: m, Name: ctx.Name(), Host: ctx.HostName(), Log: ctx.Logger()}
	if NewHook != nil {
		NewHook(a, ctx)
	}
	return a, nil
}

type Activity struct {
	Settings map[string]interface{}
	Name     string
	Host     string
	Log      log.Logger
}

func (a *Activity) Metadata() *activity.Metadata { return md }

func (a *Activity) Eval(ctx activity.Context) (bool, error) {
	return Hook(a, ctx)
}

func (a *Activity) Reconfigure(settings map[string]interface{}) error {
	if ReconfHook != nil {
		return ReconfHook(a, settings)
	}
	return nil
}

func (a *Activity) Cleanup() error {
	if CleanHook != nil {
		return CleanHook(a)
	}
	return nil
}

// RawInputs captures the complete input map of an activity.
type RawInputs struct{ M map[string]interface{} }

func (r *RawInputs) ToMap() map[string]interface{} { return r.M }
func (r *RawInputs) FromMap(v map[string]interface{}) error {
	r.M = v
	return nil
}
