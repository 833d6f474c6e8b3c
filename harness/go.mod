module verif/harness

go 1.24

require (
	github.com/project-flogo/core v1.6.10
	github.com/project-flogo/flow v0.10.1
	github.com/project-flogo/flow/activity/subflow v0.0.0
)

require (
	github.com/araddon/dateparse v0.0.0-20190622164848-0fb0a474d195 // indirect
	github.com/julienschmidt/httprouter v1.3.0 // indirect
	github.com/mohae/deepcopy v0.0.0-20170929034955-c48cc78d4826 // indirect
	go.uber.org/atomic v1.6.0 // indirect
	go.uber.org/multierr v1.5.0 // indirect
	go.uber.org/zap v1.16.0 // indirect
)

replace github.com/project-flogo/flow => /repo

replace github.com/project-flogo/flow/activity/subflow => /repo/activity/subflow
