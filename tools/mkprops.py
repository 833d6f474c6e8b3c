#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

IND="instance/ind_instance.go"; TI="instance/taskinst.go"; TB="model/simple/taskbehavior.go"

prop("C01","An activity runs exactly when the flow's links say so, once, in dependency order",
 "When an acyclic flow runs, an activity runs exactly when it has no incoming link, or when every activity before it has finished or been skipped and at least one incoming link was followed; otherwise it is skipped, and so on transitively. An activity that completes follows each dependency and label link, each conditional link whose condition is true, its otherwise link exactly when it has conditional links and none is true, and no error link. Apart from loops and retries, no activity runs twice in a run, and none is lost.",
 ["programs","inputs"],"every acyclic flow graph (any mix of link types, several roots, joins, parallel links between the same two activities) and every assignment of values that decides its conditions",
 "The tests run two or three fixed flows; the number of graph shapes x link types x condition outcomes is unbounded and joins/skip propagation only go wrong on particular shapes.",
 [TB,IND,"model/simple/flowbehavior.go","instance/linkinst.go"],
 [("Enter/Done/Skip/Error decide on link states",TB),("enterTasks, handleTaskDone, releaseTask",IND)],
 [("link status","false/true/skipped per link of a running flow","instance/linkinst.go")],["activity invocations","result handler"])

prop("C02","Every run reports exactly one outcome, then completion, whatever fails",
 "Every started run whose activities all return reports exactly one outcome to its caller, a result or an error, and then signals completion exactly once. This holds for every combination of activity errors and panics, failing conditions, failing mappings and settings, failing error links and failing error handlers, in the main flow or in subflows at any depth. A run with an unhandled failure is never reported as successful, and a run whose failures were all handled is never reported as failed.",
 ["programs","inputs","fault_sequences"],"every acyclic flow with subflows and error handlers, and every assignment of a fault (error, panic, failing expression, failing mapping) to its activities, links, loops and handlers",
 "Unit tests inject at most one failure in one flow; a lost outcome needs a particular failure at a particular place, often two failures together.",
 ["action.go",IND,TI,"instance/util.go"],
 [("step loop and result delivery","action.go Run"),("handleTaskError / HandleGlobalError / panic recovery",IND)],
 None,["result handler","completion signal"])

prop("C03","Data reaches each activity and the caller exactly as the mappings say",
 "An activity receives for each mapped input exactly the value its mapping denotes when it runs: the flow input as passed by the caller (or its declared default), the output another activity of the same run produced, the recorded error, the flow context, or the literal converted to the input's declared type. A mapping that refers to something that does not exist fails the activity instead of producing a value. A completed flow returns exactly its declared outputs as they were assigned, unless it returned explicitly.",
 ["programs","inputs"],"every flow and every JSON-like value, flow input set and mapping between them",
 "Tests map one or two fixed literals; values travel through several scopes, coercions and mappers, and a wrong source shows only for particular names, types and orders.",
 ["definition/resolve.go","definition/mapper.go","definition/definition_ser.go","instance/util.go","instance/instance.go",IND,TI],
 [("resolvers","definition/resolve.go"),("input/output mappers","instance/util.go"),("startInstance, GetReturnData",IND+", instance/instance.go")],
 None,["activity inputs","result handler"])

prop("C04","Loops run per element or while the condition holds, collecting every output",
 "An iterating activity runs once per element of the integer, list, object or array it iterates over, in list order, seeing that element's key, value and index, and zero times for an empty one. A do-while activity runs at least once and repeats exactly while its condition over the current outputs and index is true. With accumulation on, the outputs of all its executions, and no others, are available afterwards in execution order; without it the outputs of the last one are. A configured delay passes between two executions.",
 ["programs","inputs"],"every loop kind, collection type and size, condition, accumulation flag, activity (plain or subflow) and position of the loop in a flow",
 "Tests loop a fixed small count over a fixed activity; sizes, element types, nesting in subflows, failures inside iterations and accumulation are not covered.",
 ["model/simple/iteratorbehavior.go","model/simple/dowhilebehavior.go",TI,"definition/definition_ser.go"],
 [("iterator/do-while behaviours","model/simple"),("handleAccumulation",TI),("getLoopCfgDef","definition/definition_ser.go")],
 None,["activity invocations and inputs","downstream mappings"])

prop("C05","A retriable error is retried exactly as configured and never otherwise",
 "An activity that fails with a retriable error and has retry-on-error with count n is executed again after its interval, with its inputs mapped again, until it succeeds or n retries have been used; then it fails with its last error. Errors that are not retriable, and activities without retry configuration, are never re-executed. A retried activity that finally succeeds leaves the flow as if it had succeeded at once, also inside loops.",
 ["fault_sequences","programs"],"every retry count (literal or expression), every sequence of retriable errors, plain errors, panics and successes, and every place of the activity in a flow",
 "One fixed failure sequence is tested at most; off-by-one and carry-over between loop iterations need other sequences.",
 ["model/simple/retry.go",TB,"definition/definition.go","definition/definition_ser.go"],
 [("evalActivity/retryEval",TB+", model/simple/retry.go"),("getRetryOnErrCfg","definition/definition_ser.go")],
 None,["activity invocations","result handler"])

prop("C06","A failure takes the error link, else the error handler, else fails the flow",
 "When an activity fails and has error links, exactly those links are followed and the flow goes on; otherwise the flow's error handler runs instead of the rest of the flow; otherwise the flow fails with that error. The handling branch sees which activity failed (its name) and its message, code and data. A failure while the error handler runs and not taken by an error link fails the flow with that error, and no activity of the abandoned normal path starts any more.",
 ["programs","fault_sequences"],"every flow with any placement of error links and an optional error handler, and every set of failing activities or conditions in main path and handler",
 "Tests contain one failing activity with one handler; abandoning pending branches, joins half entered and nested handlers need larger histories.",
 [TB,IND,TI,"definition/resolve.go"],
 [("Error transition",TB),("handleTaskError/HandleGlobalError",IND),("error data",TI)],
 None,["activity invocations and inputs","result handler"])

prop("C07","A subflow behaves as one activity: own data, one result, failure to its caller",
 "An activity that calls a subflow completes only after the subflow has completed, and then has the subflow's outputs; if the subflow fails, the calling activity fails with the subflow's error. A subflow sees only the inputs passed to it (with its own defaults) and its own activities' data, and changes nothing in the calling flow but that activity's outputs. Ending a subflow, by completion, explicit return, failure or its own error handler, never ends, repeats or skips any part of the calling flow, at any nesting depth.",
 ["programs","fault_sequences"],"every nesting of subflows (sequential, parallel, in loops, in error handlers), with every combination of completion, explicit return, failure and handled failure",
 "Only one trivial subflow is exercised; interference between a subflow and pending work of its caller needs several branches and a failure.",
 [IND,"instance/util.go","activity/subflow/activity.go"],
 [("newEmbeddedInstance/startEmbedded",IND),("host re-scheduling on completion/failure",IND),("subflow activity","activity/subflow/activity.go")],
 None,["activity invocations and inputs","result handler"])

prop("C08","Flow definitions load faithfully or are rejected with an error, never worse",
 "Loading any flow definition document either returns an error or a definition with exactly the document's tasks, links (source, target, type or else dependency, label, condition), error handler, loop and retry settings, metadata and activity configuration. Loading never crashes the process and never yields a definition whose links touch missing tasks, whose activities are not installed, whose task types the model does not know or whose conditions do not compile. Loading the same document again gives an equivalent definition.",
 ["inputs"],"every JSON document, from well-formed flows over every optional field to arbitrarily mutated and malformed ones",
 "Tests load one fixed document; the input space is all documents.",
 ["definition/definition_ser.go","definition/definition.go","support/resource.go","util/modelvalidator.go"],
 [("NewDefinition/createTask/createLink","definition/definition_ser.go"),("FlowLoader","support/resource.go")],
 None,["resource loader","definition accessors"])

prop("C09","A run saved at any step and restarted elsewhere ends with the same outcome",
 "If a running flow instance is serialized between any two steps, deserialized and restarted, the remaining activities run as they would have in the original run and the same outcome is reported. Activities that had completed before the save are not run again, and all data recorded before the save is visible after it. Serializing a deserialized instance again describes the same state.",
 ["crash_points","programs","histories"],"every flow, every step boundary as the save point, repeated saves",
 "There is no test that restarts from a generated intermediate state; the save point is a quantifier over the history.",
 ["instance/instance_ser.go",IND,"action.go"],
 [("MarshalJSON/UnmarshalJSON","instance/instance_ser.go"),("Restart",IND),("OpRestart","action.go")],
 None,["activity invocations","result handler","serialized document"])

prop("C10","Recorded steps and snapshots describe exactly what the run did",
 "With state recording on, each run records one start, one done with the true final status, and steps numbered 0,1,2,... without gaps in order; the data changes recorded in the steps, applied in order, give exactly the instance's data, task and pending-work state after each step. Start and done name the flow, the instance, the application, its user and its host. The snapshot rebuilt from the first k steps equals the snapshot recorded directly after step k. Recording never changes the outcome of a run, and with step (snapshot) recording off no step (snapshot) is recorded. For debuggers the steps also carry what tasks received and what flows returned. An unsupported mode is refused when the engine starts.",
 ["histories","programs","configurations"],"every flow (with subflows, loops, failures) under every recording mode and every prefix of its steps",
 "The only test of snapshot rebuilding prints its result without checking it; agreement must hold for each prefix of each history.",
 ["instance/instance_chg.go","instance/recorder.go","state/util.go","state/step.go","state/snapshot.go",IND,"action.go"],
 [("change tracker","instance/instance_chg.go"),("StepsToSnapshot","state/util.go"),("Snapshot",IND)],
 None,["state recorder service"])

prop("C11","Published flow and task events tell the true story of the run",
 "For each run the published events start each flow and subflow once and end it once with its true final status, consistent with the caller's outcome and the inputs and outputs of the flow. For each task the published statuses follow the task life cycle in order and agree with the activities that ran, were skipped or failed, carrying the data the activity received and produced. No event refers to a flow instance or task that does not exist.",
 ["programs","histories","fault_sequences"],"every flow with subflows, skips, loops and failures",
 "No test looks at the event stream of a run.",
 ["instance/flowevents.go","instance/taskevents.go","support/event/flowevents.go",IND],
 [("postFlowEvent","instance/flowevents.go"),("postTaskEvent","instance/taskevents.go")],
 None,["event listeners"])

prop("C12","Test interceptors mock, skip, fail and assert exactly the tasks they name",
 "An interceptor that mocks a task replaces its execution by the given outputs, one that mocks an error makes the task fail with that message, and one that skips it makes it complete without running; every other task runs as without interceptors. After the run each assertion carries the verdict its expression has on the run's data, each intercepted task the true execution status, and coverage lists exactly the tasks, links and subflows that executed. Interceptors never change the number of outcomes reported to the caller.",
 ["programs","configurations","inputs"],"every flow and every set of interceptors (mock, mock error, skip, input override, assertions of both kinds) over its tasks",
 "The existing tests cover one interceptor on one task; combinations with errors, loops and subflows are open.",
 ["instance/util.go","support/interceptor.go",TI,"action.go"],
 [("apply*Interceptor","instance/util.go"),("flow output assertions","action.go"),("coverage",IND)],
 None,["activity invocations","interceptor results","result handler"])

prop("C13","Runs of the same or different flows in parallel never influence each other",
 "When many runs of the same and of different flows execute at the same time, each run executes the activities, sees the data and reports the outcome that it would when executed alone. Every run has its own instance id, unique among them. Loading resources and looking up remote flows meanwhile gives every caller the same definition.",
 ["schedules","inputs"],"every number and mix of parallel runs, inputs and interleavings of their activities",
 "Tests run one flow at a time; sharing shows only when two runs overlap at particular points.",
 [IND,"action.go","support/manager.go","activity/subflow/activity.go","definition/definition.go"],
 [("per-run instance state",IND),("shared immutable definition","definition/definition.go"),("flow cache lock","support/manager.go")],
 None,["activity invocations and inputs","result handler"])

prop("C14","Concurrent task execution gives the same outcome as sequential execution",
 "With concurrent task execution enabled, every flow ends, without deadlock, with an outcome the sequential mode could also report, and its activities run under the same rules: each at most once, after its predecessors, with the same inputs. An activity that blocks does not keep independent activities from running. This holds for every interleaving of the parallel activities' completions.",
 ["schedules","programs","configurations"],"every flow with parallel branches, joins, skips, loops, subflows and failures, and every order in which parallel activities finish",
 "The mode is off in all tests; interleavings of completions are never explored.",
 [IND,"instance/instance.go","instance/util.go",TI],
 [("DoStepInLoop and scheduling lock",IND),("per-instance locks","instance/instance.go")],
 None,["activity start/end events","result handler"])

prop("C15","A remote flow is the same flow however it is fetched, and is fetched once",
 "A flow fetched from a file, a gzip-compressed file, an HTTP server or an HTTP server that answers in compressed form runs exactly like the same document loaded as a resource. A missing, truncated, corrupt or empty document or an HTTP error status gives an error to the caller, without crashing the process and without being remembered as the flow. A successfully loaded flow is fetched at most once per URI, however many callers ask at once.",
 ["inputs","fault_sequences","schedules"],"every flow document, transport, corruption of its bytes, HTTP status and number of parallel callers",
 "Tests fetch one valid plain file and one fixed HTTP answer; corruptions and transports are an input space.",
 ["support/manager.go","support/definition.go","action.go"],
 [("BasicRemoteFlowProvider.GetFlow","support/manager.go"),("FlowManager cache","support/manager.go")],
 None,["flow manager","result handler"])

prop("C16","A run that exceeds the step limit is stopped and reported as failed",
 "A run that would take more steps than the configured limit is stopped and reports an error that names the limit, and a run that needs fewer steps than the limit is never stopped by it. The limit is configurable by environment and has its documented default when the setting is absent or malformed. It holds for loops of any kind and for subflows.",
 ["programs","configurations"],"every flow, loop length and limit value",
 "No test reaches the limit.",
 ["action.go","util/util.go","ondemand/action.go",IND],
 [("step counter in the run loop","action.go"),("GetMaxStepCount","util/util.go")],
 None,["result handler","activity invocations"])

prop("C17","An on-demand flow runs as the same flow loaded as a resource",
 "Running a flow package on demand executes the same activities with the same data, and reports the same result or error, as the same flow loaded as a resource and started with the inputs its input mappings denote. A package that is missing, malformed or contains an invalid flow gives an error and nothing runs. It ends with exactly one final outcome and one completion signal.",
 ["programs","inputs","fault_sequences"],"every flow package: flow, input mappings, trigger data, failures",
 "The on-demand tests run one fixed package, and do not compare with the other path.",
 ["ondemand/action.go","definition/definition_ser.go"],
 [("on-demand Run and ApplyMappings","ondemand/action.go")],
 None,["activity invocations","result handler"])

prop("C18","The flow tester service answers every request cleanly and runs what was asked",
 "Every request to the tester service is answered: a valid start request runs the named flow once with the given data, interceptors and overrides and answers with the instance id, and a malformed request or unknown flow is answered with a client error. No request crashes or wedges the service; later valid requests are served as if it had not happened. Restarting from a saved instance through the service continues that instance as a direct restart does.",
 ["inputs","histories"],"every sequence of well-formed and malformed requests to the start, restart, resume and status endpoints",
 "There is no test of the service beyond construction.",
 ["tester/service.go","tester/request.go","tester/server.go","action.go"],
 [("REST handlers","tester/service.go"),("RequestProcessor","tester/request.go")],
 None,["HTTP responses","activity invocations"])

prop("C19","Every trace span that is opened for a run is closed, once, under its parent",
 "With tracing on, each run opens one span for the flow, one per subflow run and one per activity execution, each below the span of the flow it belongs to (a subflow below the activity that called it). Every span opened is finished exactly once, with an error exactly when that execution failed, and before or with the run's end. Apart from a run whose own span cannot be opened, which is refused, tracing never changes the outcome of a run.",
 ["programs","fault_sequences"],"every flow with subflows, loops, retries, error handlers, explicit returns and failures",
 "No test counts spans; leaks need particular endings.",
 [IND,TI,TB,"action.go"],
 [("StartTrace/FinishTrace pairs",IND+", "+TI+", action.go")],
 None,["tracer calls"])

prop("C20","Reply and return deliver the given data, and return ends its flow at once",
 "An explicit reply reaches the caller as soon as it is made and the run continues; the first outcome delivered is the one the caller gets. An explicit return ends the flow it is in, after which none of that flow's remaining activities start, and its data (or, in a main flow, the error it returns) is the flow's result. A flow that is not returned from explicitly ends by itself when no activity is left to run.",
 ["programs","inputs"],"every flow with reply and return activities at every position, in main flows, subflows, loops and error handlers",
 "Tests use return as the last activity only; pending parallel branches are never present.",
 ["instance/instance.go",IND,"action.go"],
 [("Reply/Return/forceCompletion","instance/instance.go"),("completion in handleTaskDone",IND)],
 None,["result handler","activity invocations"])

prop("C21","Branches leaving one activity run in the documented priority order",
 "Activities started by the same completed predecessor and waiting for nothing else run in the order of their link's priority: label links first, then the otherwise link, then conditional links, then dependency links. With the option that prioritises conditional links, these run before otherwise, label and dependency links in that order. Each branch runs to its end before the next lower-priority branch starts.",
 ["programs","configurations"],"every fan-out of mixed links with branches of any length, under both settings of the option",
 "The order is not tested on generated fan-outs, only for one hand-made set of entries.",
 [TB,IND,"support/env.go"],
 [("enter codes and SortTaskEntries",TB),("work queue order",IND)],
 None,["activity invocations"])

prop("C22","Reconfiguring a flow changes exactly the named activities' settings",
 "Reconfiguring a loaded flow with a new document gives each reconfigurable activity with settings that the document names the new settings, resolved and converted as on loading, and leaves all other activities, and settings not mentioned, as they were. Later runs use the new settings while the flow's structure stays unchanged. A document that cannot be parsed leaves the flow unchanged and gives an error, and none crashes the process.",
 ["inputs","histories"],"every sequence of reconfigurations of every flow, with valid, partial and invalid settings",
 "One fixed reconfiguration is tested at most.",
 ["definition/definition.go","support/resource.go"],
 [("Reconfigure/reconfigureTaskSettings","definition/definition.go")],
 None,["activity reconfiguration calls","activity invocations"])

prop("C23","A detached subflow runs on its own and never affects its caller",
 "An activity that calls a subflow in detached mode completes without waiting for it, and the calling flow's outcome does not depend on when or how the detached run ends. The detached run executes the whole subflow once, with the inputs it was given, as an independent run with its own instance id. A failure to start it fails the calling activity.",
 ["programs","schedules","fault_sequences"],"every detached subflow (succeeding, failing, slow, nested) at every place of a calling flow",
 "No test runs a detached subflow.",
 ["instance/util.go","activity/subflow/activity.go","action.go"],
 [("StartDetachedSubFlow","instance/util.go"),("DetachExecution","action.go")],
 None,["activity invocations","result handler"])

prop("C24","Flow context variables name the right flow, instance and parent in every flow",
 "In every flow and subflow, at any depth, the flow context variables give that flow's own name and instance id, and the name and instance id of the flow that directly called it (empty in a top-level flow), and the name and version of the application (those of its environment, if it has any, else those it was built with). The ids are distinct for distinct flow and subflow runs, the same throughout one run, and equal to those in results, events and recorded states. A reference to an unknown context variable fails the activity that makes it.",
 ["programs"],"every nesting of subflows and every place where the variables are read",
 "A single top-level flow's context is what tests reach.",
 [IND,"definition/resolve.go","instance/instance.go"],
 [("startInstance sets context",IND),("FlowContextResolver","definition/resolve.go")],
 None,["activity inputs","result handler"])

prop("C25","Data that violates a schema fails the activity, and schemas do nothing else",
 "When schema validation is enabled, an activity or subflow call whose mapped inputs do not comply with the schemas its task has for them is not executed, and one whose outputs do not comply does not succeed and hands none of its outputs on. Either counts as a failure of that activity, with the schema's complaint as error, which error links and handlers get and which is not retried. Complying data passes unchanged, activities that bypass validation are not validated, and they all can see the schemas of their task. When validation is not enabled, schemas change nothing.",
 ["programs","inputs","configurations"],"every flow with schemas (inline, referenced, empty, of unused names) on any inputs and outputs, all data, validation on or off",
 "No test gives an activity a schema.",
 ["instance/taskinst.go","definition/definition_ser.go","definition/definition.go"],
 [("validation in EvalActivity/PostEvalActivity",TI),("schemas of createActivityConfig","definition/definition_ser.go")],
 None,["activity inputs","result handler"])

prop("C26","Each task has an activity of its own, created once and cleaned up once",
 "Loading a flow creates one instance of its activity for every task of the main flow and of the error handler, unless all tasks share the activity, with the task's and flow's name and the task's resolved settings. All runs execute the activity that belongs to the task and create none. Unloading the flow cleans up each of these instances that can be cleaned up exactly once, also when other cleanups fail; those of flows still loaded, and shared activities, are left alone.",
 ["programs","histories","fault_sequences"],"every set of flows with tasks in main flows, subflows and handlers, any settings, runs before unloading, orders of unloading and failing cleanups",
 "Nothing of this is tested.",
 ["definition/definition.go","definition/definition_ser.go","support/resource.go"],
 [("createActivityConfig","definition/definition_ser.go"),("Cleanup","definition/definition.go")],
 None,["activity creation and cleanup calls","activity invocations"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
