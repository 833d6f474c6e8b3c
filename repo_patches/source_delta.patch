From 650c7472943c76da8dda57e422eaddb584450a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 01/93] fix: starting the error handler of a subflow discards
 the subflow's tasks, not the main flow's

---
 instance/ind_instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 30df8b7..b331912 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -681,7 +681,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		// todo: should we clear out the existing workitem queue for items from containerInst?
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
 		//clear existing instances
-		inst.taskInsts = make(map[string]*TaskInst)
+		containerInst.taskInsts = make(map[string]*TaskInst)
 
 		taskEntries := flowBehavior.StartErrorHandler(containerInst)
 		err := inst.enterTasks(containerInst, taskEntries)
-- 
2.43.0


From 10a05bcbea6db1939f2568aa0a972bf6b1d45196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 02/93] fix: a failure in the error handler fails the flow with
 that error

---
 instance/ind_instance.go | 87 ++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 56 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index b331912..6cdfe06 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -412,12 +412,8 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 			// todo: useful for debugging
 			//logger.Debugf("StackTrace: %s", debug.Stack())
 
-			if !taskInst.flowInst.isHandlingError {
-
-				taskInst.appendErrorData(NewActivityEvalError(taskInst.task.Name(), "unhandled", err.Error()))
-				inst.HandleGlobalError(taskInst.flowInst, err)
-			}
-			// else what should we do?
+			taskInst.appendErrorData(NewActivityEvalError(taskInst.task.Name(), "unhandled", err.Error()))
+			inst.HandleGlobalError(taskInst.flowInst, err)
 		}
 	}()
 
@@ -628,35 +624,8 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 
 		containerInst.releaseTask(taskInst.Task())
 	} else {
-		if containerInst.isHandlingError {
-			//fail
-			containerInst.SetStatus(model.FlowStatusFailed)
-
-			if containerInst != inst.Instance {
-				// Complete SubflowCreated trace
-				if containerInst.tracingCtx != nil {
-					_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
-				}
-
-				//Finished Subflow with error
-				if containerInst != nil && containerInst.master != nil {
-					containerInst.master.RecordState(time.Now().UTC())
-				}
-				// spawned from task instance
-				host, ok := containerInst.host.(*TaskInst)
-
-				if ok {
-					host.returnError = err
-					inst.scheduleEval(host)
-				}
-			} else {
-				taskInst.appendErrorData(err)
-			}
-
-		} else {
-			taskInst.appendErrorData(err)
-			inst.HandleGlobalError(containerInst, err)
-		}
+		taskInst.appendErrorData(err)
+		inst.HandleGlobalError(containerInst, err)
 		return
 	}
 
@@ -666,8 +635,8 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err error) {
 
 	if containerInst.isHandlingError {
-		//todo: log error information
-		containerInst.SetStatus(model.FlowStatusFailed)
+		//the error handler itself failed, so the flow fails
+		inst.failFlow(containerInst, err)
 		return
 	}
 
@@ -691,30 +660,36 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		}
 
 	} else {
-		// Print error message if no error handler
-		inst.logger.Error(err)
-		containerInst.SetStatus(model.FlowStatusFailed)
+		inst.failFlow(containerInst, err)
+	}
+}
 
-		if containerInst != inst.Instance {
+// failFlow ends the flow with the given error and hands the error to whoever started the flow
+func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 
-			// Complete SubflowCreated trace
-			if containerInst.tracingCtx != nil {
-				_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
-			}
+	// Print error message if no error handler
+	inst.logger.Error(err)
+	containerInst.SetStatus(model.FlowStatusFailed)
 
-			if containerInst != nil && containerInst.master != nil {
-				containerInst.master.RecordState(time.Now().UTC())
-			}
-			// spawned from task instance
-			host, ok := containerInst.host.(*TaskInst)
+	if containerInst != inst.Instance {
 
-			if ok {
-				host.returnError = err
-				inst.scheduleEval(host)
-			}
-		} else {
-			inst.returnError = err
+		// Complete SubflowCreated trace
+		if containerInst.tracingCtx != nil {
+			_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
+		}
+
+		if containerInst != nil && containerInst.master != nil {
+			containerInst.master.RecordState(time.Now().UTC())
 		}
+		// spawned from task instance
+		host, ok := containerInst.host.(*TaskInst)
+
+		if ok {
+			host.returnError = err
+			inst.scheduleEval(host)
+		}
+	} else {
+		inst.returnError = err
 	}
 }
 
-- 
2.43.0


From 81fb70ba7b79561d32c0974999f4d30b8a727004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 03/93] fix: pending work of a flow that ended or switched to
 its error handler is not executed

---
 instance/ind_instance.go |  5 +++++
 instance/instance.go     |  9 +++++++++
 instance/taskinst.go     | 11 +++++++++++
 3 files changed, 25 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 6cdfe06..d118261 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -417,6 +417,11 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 		}
 	}()
 
+	if !taskInst.isCurrent() {
+		// the flow of the task has ended or abandoned it, so there is nothing left to do
+		return
+	}
+
 	var err error
 	var evalResult model.EvalResult
 
diff --git a/instance/instance.go b/instance/instance.go
index d1c855a..8173646 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -120,6 +120,15 @@ func (inst *Instance) FindOrCreateLinkData(link *definition.Link) (linkInst *Lin
 	return linkInst, created
 }
 
+// hasTaskInst tells if the task instance is one of the current task instances
+func (inst *Instance) hasTaskInst(taskInst *TaskInst) bool {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	return inst.taskInsts[taskInst.taskID] == taskInst
+}
+
 func (inst *Instance) releaseTask(task *definition.Task) {
 	if inst.lock != nil {
 		inst.lock.Lock()
diff --git a/instance/taskinst.go b/instance/taskinst.go
index 1a921e4..39e0515 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -183,6 +183,17 @@ func (ti *TaskInst) UpdateTaskToTracker() {
 	ti.flowInst.master.changeTracker.TaskUpdated(ti)
 }
 
+// isCurrent tells if the task instance still is a part of its flow, i.e. neither that flow nor any
+// flow that it is embedded in has ended or has abandoned the task that the execution stems from
+func (ti *TaskInst) isCurrent() bool {
+	for ok := true; ok; ti, ok = ti.flowInst.host.(*TaskInst) {
+		if ti.flowInst.status != model.FlowStatusActive || !ti.flowInst.hasTaskInst(ti) {
+			return false
+		}
+	}
+	return true
+}
+
 func (ti *TaskInst) SetWorkingData(key string, value interface{}) {
 	if ti.workingData == nil {
 		ti.workingData = NewWorkingDataScope(ti.flowInst)
-- 
2.43.0


From 08972682af651e4b87ab8681af959908028fee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 04/93] fix: a task that is reached through several links at
 once is entered once

---
 instance/ind_instance.go |  8 ++++++--
 instance/instance.go     | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index d118261..c5b5792 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -708,9 +708,13 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 	for _, taskEntry := range taskEntries {
 		//logger.Debugf("EnterTask - TaskEntry: %v", taskEntry)
 		behavior := inst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
+		if activeInst.linksReleased(taskEntry.Task) {
+			//task was already skipped because of another entry
+			continue
+		}
 		taskInst, _ := activeInst.FindOrCreateTaskInst(taskEntry.Task)
-		if inst.concurrentExec && taskInst.scheduled {
-			//task is already scheduled by other goroutine. Lets skip this task
+		if taskInst.scheduled {
+			//task is already scheduled, by another entry or by other goroutine. Lets skip this task
 			continue
 		}
 		taskInst.id = taskInst.taskID
diff --git a/instance/instance.go b/instance/instance.go
index 8173646..fbf00fb 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -145,6 +145,20 @@ func (inst *Instance) releaseTask(task *definition.Task) {
 	}
 }
 
+// linksReleased tells if the task has incoming links and none of them has any link data (left)
+func (inst *Instance) linksReleased(task *definition.Task) bool {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	for _, link := range task.FromLinks() {
+		if _, exists := inst.linkInsts[link.ID()]; exists {
+			return false
+		}
+	}
+	return len(task.FromLinks()) > 0
+}
+
 /////////////////////////////////////////
 // Instance - activity.Host Implementation
 
-- 
2.43.0


From 2ff410d73a78ecd10964b7c8228e0ca0b4cc3833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 05/93] fix: a flow that is found complete more than once
 completes once

---
 instance/ind_instance.go | 103 +++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 48 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index c5b5792..ed86fdb 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -509,55 +509,9 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 
 	if flowDone || containerInst.forceCompletion {
 		//flow completed or return was called explicitly, so lets complete the flow
-		flowBehavior := inst.flowModel.GetFlowBehavior()
-		flowBehavior.Done(containerInst)
-		flowDone = true
-		containerInst.SetStatus(model.FlowStatusCompleted)
-
-		if containerInst != inst.Instance {
-			//not top level flow so we have to schedule next step
-			// Complete subflow trace
-			if containerInst.tracingCtx != nil {
-				_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, nil)
-			}
-
-			// spawned from task instance
-			host, ok := containerInst.host.(*TaskInst)
-
-			if ok {
-				host.SetOutputs(containerInst.returnData)
-				// Reset error if any
-				host.returnError = nil
-				//Sub flow done
-				containerInst.master.GetChanges().SubflowDone(containerInst)
-				inst.scheduleEval(host)
-			}
-
-			//if containerInst.isHandlingError {
-			//	//was the error handler, so directly under instance
-			//	host,ok := containerInst.host.(*EmbeddedInstance)
-			//	if ok {
-			//		host.SetStatus(model.FlowStatusCompleted)
-			//		host.returnData = containerInst.returnData
-			//		host.returnError = containerInst.returnError
-			//	}
-			//	//todo if not a task inst, what should we do?
-			//} else {
-			//	// spawned from task instance
-			//
-			//	//todo if not a task inst, what should we do?
-			//}
-
-			// flow has completed so remove it
-			if inst.subFlowLock != nil {
-				inst.subFlowLock.Lock()
-				defer inst.subFlowLock.Unlock()
-			}
-			delete(inst.subflows, containerInst.subflowId)
-		} else {
-			containerInst.master.GetChanges().FlowDone(inst)
+		if containerInst.status == model.FlowStatusActive {
+			inst.completeFlow(containerInst)
 		}
-
 	} else {
 
 		if !propagateSkip {
@@ -574,6 +528,59 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 	containerInst.releaseTask(task)
 }
 
+// completeFlow ends the flow successfully and hands its outputs to whoever started the flow
+func (inst *IndependentInstance) completeFlow(containerInst *Instance) {
+
+	flowBehavior := inst.flowModel.GetFlowBehavior()
+	flowBehavior.Done(containerInst)
+	containerInst.SetStatus(model.FlowStatusCompleted)
+
+	if containerInst != inst.Instance {
+		//not top level flow so we have to schedule next step
+		// Complete subflow trace
+		if containerInst.tracingCtx != nil {
+			_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, nil)
+		}
+
+		// spawned from task instance
+		host, ok := containerInst.host.(*TaskInst)
+
+		if ok {
+			host.SetOutputs(containerInst.returnData)
+			// Reset error if any
+			host.returnError = nil
+			//Sub flow done
+			containerInst.master.GetChanges().SubflowDone(containerInst)
+			inst.scheduleEval(host)
+		}
+
+		//if containerInst.isHandlingError {
+		//	//was the error handler, so directly under instance
+		//	host,ok := containerInst.host.(*EmbeddedInstance)
+		//	if ok {
+		//		host.SetStatus(model.FlowStatusCompleted)
+		//		host.returnData = containerInst.returnData
+		//		host.returnError = containerInst.returnError
+		//	}
+		//	//todo if not a task inst, what should we do?
+		//} else {
+		//	// spawned from task instance
+		//
+		//	//todo if not a task inst, what should we do?
+		//}
+
+		// flow has completed so remove it
+		if inst.subFlowLock != nil {
+			inst.subFlowLock.Lock()
+			defer inst.subFlowLock.Unlock()
+		}
+		delete(inst.subflows, containerInst.subflowId)
+	} else {
+		containerInst.master.GetChanges().FlowDone(inst)
+	}
+
+}
+
 func (inst *IndependentInstance) propagateSkip(taskEntries []*model.TaskEntry, activeInst *Instance) bool {
 
 	if len(taskEntries) == 0 {
-- 
2.43.0


From 276dd05ee3cf92e3bd5049a679675924831d280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 06/93] fix: a subflow that ends without explicit return hands
 its outputs to its caller

---
 instance/ind_instance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index ed86fdb..28002f7 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -546,7 +546,8 @@ func (inst *IndependentInstance) completeFlow(containerInst *Instance) {
 		host, ok := containerInst.host.(*TaskInst)
 
 		if ok {
-			host.SetOutputs(containerInst.returnData)
+			returnData, _ := containerInst.GetReturnData()
+			host.SetOutputs(returnData)
 			// Reset error if any
 			host.returnError = nil
 			//Sub flow done
-- 
2.43.0


From 5fc7b7a30f6275af71e548622171ebae5b989f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 07/93] fix: a failing setting fails its task

---
 instance/ind_instance.go | 13 ++++++++++---
 instance/util.go         |  9 +++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 28002f7..4d5dd39 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -713,6 +713,8 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		defer inst.actSchedLock.Unlock()
 	}
 
+	handlingError := activeInst.isHandlingError
+
 	for _, taskEntry := range taskEntries {
 		//logger.Debugf("EnterTask - TaskEntry: %v", taskEntry)
 		behavior := inst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
@@ -730,13 +732,18 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		if enterResult == model.EREval {
 			err := applySettingsMapper(taskInst)
 			if err != nil {
-				return err
+				inst.handleTaskError(behavior, taskInst, NewActivityEvalError(taskInst.task.Name(), "mapper", err.Error()))
+			} else {
+				taskInst.scheduled = true
+				inst.scheduleEval(taskInst)
 			}
-			taskInst.scheduled = true
-			inst.scheduleEval(taskInst)
 		} else if enterResult == model.ERSkip {
 			inst.handleTaskDone(behavior, taskInst)
 		}
+		if activeInst.status != model.FlowStatusActive || activeInst.isHandlingError != handlingError {
+			//flow has ended or switched to its error handler, so the remaining tasks are not to be entered
+			break
+		}
 	}
 
 	return nil
diff --git a/instance/util.go b/instance/util.go
index 1749626..2c81005 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -23,7 +23,13 @@ import (
 
 const EventIdAttr = "event.id"
 
-func applySettingsMapper(taskInst *TaskInst) error {
+func applySettingsMapper(taskInst *TaskInst) (err error) {
+
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("unhandled Error evaluating settings: %v", r)
+		}
+	}()
 
 	// get the input mapper
 	settingsMapper := taskInst.task.SettingsMapper()
@@ -32,7 +38,6 @@ func applySettingsMapper(taskInst *TaskInst) error {
 
 		taskInst.logger.Debug("Applying SettingsMapper")
 
-		var err error
 		taskInst.settings, err = settingsMapper.Apply(taskInst.flowInst)
 
 		if err != nil {
-- 
2.43.0


From ae39af46f8540311538804ddd19afca86b2ccd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 08/93] fix: a panic while evaluating a link condition is
 reported as an error

---
 instance/taskinst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 39e0515..45825e3 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -282,7 +282,7 @@ func (ti *TaskInst) EvalLink(link *definition.Link) (result bool, err error) {
 			ti.logger.Warnf("Unhandled Error evaluating link '%s' : %v\n", link.ID(), r)
 			ti.logger.Debugf("StackTrace: %s", debug.Stack())
 
-			if err != nil {
+			if err == nil {
 				err = fmt.Errorf("%v", r)
 			}
 		}
-- 
2.43.0


From 6f8fd9daf6abc1f4d7d7a98080f7aa385157c47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 09/93] fix: a flow without tasks completes and an error
 handler without tasks handles nothing

---
 instance/ind_instance.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 4d5dd39..281436b 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -253,6 +253,10 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 			//todo review how we should handle an error encountered here
 			log.RootLogger().Errorf("encountered error when entering tasks: %v", err)
 		}
+		if len(taskEntries) == 0 {
+			// there is nothing to do, so the flow is done
+			inst.completeFlow(toStart)
+		}
 	}
 
 	return ok
@@ -658,7 +662,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 	flowBehavior := inst.flowModel.GetFlowBehavior()
 
 	//not currently handling error, so check if it has an error handler
-	if containerInst.flowDef.GetErrorHandler() != nil {
+	if eh := containerInst.flowDef.GetErrorHandler(); eh != nil && len(eh.Tasks()) > 0 {
 
 		// todo: should we clear out the existing workitem queue for items from containerInst?
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
-- 
2.43.0


From c55317d3fc231a42767a326457a693d5c7579e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 10/93] fix: an iterating or do-while task that waits for a
 subflow goes on with its next execution

---
 model/simple/dowhilebehavior.go  | 10 ++++++++--
 model/simple/iteratorbehavior.go |  5 +++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index 11b40ab..f2f3471 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -63,9 +63,15 @@ func (dw *DoWhileTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model
 		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
-	ctx.SetStatus(model.TaskStatusDone)
 	defer dw.updateDoWhileIndex(ctx)
-	return dw.checkDoWhileCondition(ctx)
+	evalResult, err = dw.checkDoWhileCondition(ctx)
+	if evalResult == model.EvalRepeat {
+		//execute again, instead of waiting
+		ctx.SetStatus(model.TaskStatusReady)
+	} else {
+		ctx.SetStatus(model.TaskStatusDone)
+	}
+	return evalResult, err
 }
 
 func (dw *DoWhileTaskBehavior) checkDoWhileCondition(ctx model.TaskContext) (evalResult model.EvalResult, err error) {
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index 89a23a3..8cad1b1 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -161,15 +161,16 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
-	ctx.SetStatus(model.TaskStatusDone)
-
 	itxAttr, _ := ctx.GetWorkingData("_iterator")
 	itx := itxAttr.(Iterator)
 
 	if itx.HasNext() {
+		//execute again, instead of waiting or being done
+		ctx.SetStatus(model.TaskStatusReady)
 		return model.EvalRepeat, nil
 	}
 
+	ctx.SetStatus(model.TaskStatusDone)
 	return model.EvalDone, nil
 }
 
-- 
2.43.0


From 2bd27eb7a551b2bc98dba91e9faa36d96365c53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 11/93] fix: a do-while condition that is not a bool fails the
 task instead of panicking

---
 model/simple/dowhilebehavior.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index f2f3471..22b6302 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/project-flogo/core/activity"
 	"github.com/project-flogo/core/data"
+	"github.com/project-flogo/core/data/coerce"
 	"github.com/project-flogo/core/data/expression"
 	"github.com/project-flogo/flow/instance"
 	"github.com/project-flogo/flow/model"
@@ -90,7 +91,11 @@ func (dw *DoWhileTaskBehavior) evaluateCondition(ctx model.TaskContext, conditio
 		if err != nil {
 			return model.EvalFail, err
 		}
-		if result.(bool) {
+		repeat, err := coerce.ToBool(result)
+		if err != nil {
+			return model.EvalFail, err
+		}
+		if repeat {
 			delay := ctx.Task().LoopConfig().Delay()
 			if delay > 0 {
 				ctx.FlowLogger().Infof("Dowhile Task[%s] execution delaying for %d milliseconds...", ctx.Task().ID(), delay)
-- 
2.43.0


From ec7e218feba97d41e842aaee5d4bc6a89f16fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 12/93] fix: accumulating do-while over a subflow provides its
 outputs to the condition

---
 instance/taskinst.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 45825e3..1644540 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -523,6 +523,13 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 			if err := ti.handleAccumulation(); err != nil {
 				return false, err
 			}
+
+			if cfg.ApplyOutputOnAccumulate() {
+				err = ti.applyOutputMapper()
+				if err != nil {
+					return done, err
+				}
+			}
 		} else if ti.task.ActivityConfig().OutputMapper() != nil {
 			appliedMapper, err := applyOutputMapper(ti)
 
-- 
2.43.0


From bd82d80417a89c0de988094295e6e52e6e70a756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 13/93] fix: observing a running flow does not freeze its
 outputs

---
 instance/instance.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/instance/instance.go b/instance/instance.go
index fbf00fb..abe143b 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -190,27 +190,29 @@ func (inst *Instance) GetError() error {
 
 func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
 
-	if inst.returnData == nil {
+	returnData := inst.returnData
 
-		//construct returnData from instance attributes
+	if returnData == nil {
+
+		//construct returnData from instance attributes, which can still change as long as the flow runs
 		md := inst.flowDef.Metadata()
 
 		if md != nil && md.Output != nil {
 
-			inst.returnData = make(map[string]interface{})
+			returnData = make(map[string]interface{})
 			for name := range md.Output {
 				piAttr, exists := inst.attrs[name]
 				if exists {
-					inst.returnData[name] = piAttr
+					returnData[name] = piAttr
 				}
 				if md.Output[name].Value() != nil {
-					inst.returnData[name] = md.Output[name].Value()
+					returnData[name] = md.Output[name].Value()
 				}
 			}
 		}
 	}
 
-	return inst.returnData, inst.returnError
+	return returnData, inst.returnError
 }
 
 /////////////////////////////////////////
-- 
2.43.0


From 7c63201472ee8694a721c1df445477d9b0f31919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 14/93] fix: a subflow input that is not mapped has its
 declared default

---
 activity/subflow/activity.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/activity/subflow/activity.go b/activity/subflow/activity.go
index 5c16b2c..d6dfced 100755
--- a/activity/subflow/activity.go
+++ b/activity/subflow/activity.go
@@ -94,7 +94,9 @@ func (a *SubFlowActivity) Eval(ctx activity.Context) (done bool, err error) {
 	if md.IOMetadata != nil {
 
 		for name := range md.Input {
-			input[name] = ctx.GetInput(name)
+			if value := ctx.GetInput(name); value != nil {
+				input[name] = value
+			}
 		}
 	}
 
-- 
2.43.0


From 9b75d0d98b29251529b3dc7dfd31c7083dee9a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 15/93] fix: a failed flow with exception assertions reports
 one outcome

---
 action.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index bb95e26..fc6a600 100644
--- a/action.go
+++ b/action.go
@@ -425,8 +425,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			// The testcase will be passed or failed based on the assertions executed.
 			if hasFlowExceptionAssert {
 				handler.HandleResult(nil, nil)
+			} else {
+				handler.HandleResult(nil, inst.GetError())
 			}
-			handler.HandleResult(nil, inst.GetError())
 		}
 
 		logger.Debugf("Executing flow instance [%s] for event id [%s] - Status: %d", inst.ID(), trigger.GetHandlerEventIdFromContext(ctx), inst.Status())
-- 
2.43.0


From 125c617f23897a50da34dd9a69108af1de8f2057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 16/93] fix: the data of a flow and of its subflows is guarded
 in concurrent mode, without deadlock

---
 instance/ind_instance.go | 3 +++
 instance/instance.go     | 4 ----
 instance/taskinst.go     | 2 +-
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 281436b..4a5f998 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -115,6 +115,9 @@ func (inst *IndependentInstance) newEmbeddedInstance(taskInst *TaskInst, flowURI
 	embeddedInst.linkInsts = make(map[int]*LinkInst)
 	embeddedInst.flowURI = flowURI
 	embeddedInst.logger = inst.logger
+	if inst.concurrentExec {
+		embeddedInst.lock = &sync.RWMutex{}
+	}
 
 	if trace.Enabled() {
 		tc, _ := trace.GetTracer().StartTrace(embeddedInst.SpanConfig(), taskInst.traceContext) //TODO handle error
diff --git a/instance/instance.go b/instance/instance.go
index abe143b..692d24d 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -299,10 +299,6 @@ func (inst *Instance) SetValue(name string, value interface{}) error {
 
 // UpdateAttrs updates the attributes of the Flow Instance
 func (inst *Instance) UpdateAttrs(attrs map[string]interface{}) {
-	if inst.lock != nil {
-		inst.lock.Lock()
-		defer inst.lock.Unlock()
-	}
 
 	if len(attrs) > 0 {
 		for name, value := range attrs {
diff --git a/instance/taskinst.go b/instance/taskinst.go
index 1644540..afdb627 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -601,7 +601,7 @@ func (ti *TaskInst) handleAccumulation() error {
 	attrName := "_A." + ti.Task().ID()
 	var outputs []interface{}
 
-	if attr, ok := ti.flowInst.attrs[attrName]; ok {
+	if attr, ok := ti.flowInst.GetValue(attrName); ok {
 		var err error
 		outputs, err = coerce.ToArray(attr)
 		if err != nil {
-- 
2.43.0


From c197268b6f3dd79b8b9a0bb904ee3483e806c43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 17/93] fix: transitions of a flow exclude each other in
 concurrent mode, without deadlock

---
 instance/ind_instance.go | 57 +++++++++++++++++++++++++++++++++++-----
 instance/taskinst.go     |  3 +++
 2 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 4a5f998..4b1c63c 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -171,6 +171,9 @@ func (inst *IndependentInstance) startEmbedded(embedded *Instance, startAttrs ma
 		return errors.New("embedded instance is not from this independent instance")
 	}
 
+	inst.lockScheduling()
+	defer inst.unlockScheduling()
+
 	inst.startInstance(embedded, startAttrs)
 	return nil
 }
@@ -346,7 +349,7 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 
 	var stepCount int
 
-	for inst.status == model.FlowStatusActive {
+	for inst.isActive() {
 		// get item to be worked on
 		item, ok := inst.workItemQueue.Pop()
 		if ok {
@@ -391,6 +394,12 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 	return nil
 }
 
+func (inst *IndependentInstance) isActive() bool {
+	inst.lockScheduling()
+	defer inst.unlockScheduling()
+	return inst.status == model.FlowStatusActive
+}
+
 func (inst *IndependentInstance) scheduleEval(taskInst *TaskInst) {
 
 	inst.wiCounter++
@@ -404,9 +413,30 @@ func (inst *IndependentInstance) scheduleEval(taskInst *TaskInst) {
 	inst.changeTracker.WorkItemAdded(workItem)
 }
 
+// lockScheduling starts a transition of the flow, i.e. something that ends or starts tasks or flows
+func (inst *IndependentInstance) lockScheduling() {
+	if inst.actSchedLock != nil {
+		// Lock is set only when concurrent executaion is enabled
+		inst.actSchedLock.Lock()
+	}
+}
+
+// unlockScheduling ends a transition of the flow
+func (inst *IndependentInstance) unlockScheduling() {
+	if inst.actSchedLock != nil {
+		inst.actSchedLock.Unlock()
+	}
+}
+
 // execTask executes the specified Work Item of the Flow Instance
 func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst *TaskInst) {
 
+	if inst.concurrentExec {
+		// a task that waits for its subflow must not be continued before it is known to wait
+		taskInst.execLock.Lock()
+		defer taskInst.execLock.Unlock()
+	}
+
 	defer func() {
 		if r := recover(); r != nil {
 
@@ -419,12 +449,20 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 			// todo: useful for debugging
 			//logger.Debugf("StackTrace: %s", debug.Stack())
 
+			inst.lockScheduling()
+			defer inst.unlockScheduling()
+			if !taskInst.isCurrent() {
+				return
+			}
 			taskInst.appendErrorData(NewActivityEvalError(taskInst.task.Name(), "unhandled", err.Error()))
 			inst.HandleGlobalError(taskInst.flowInst, err)
 		}
 	}()
 
-	if !taskInst.isCurrent() {
+	inst.lockScheduling()
+	current := taskInst.isCurrent()
+	inst.unlockScheduling()
+	if !current {
 		// the flow of the task has ended or abandoned it, so there is nothing left to do
 		return
 	}
@@ -440,6 +478,14 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 		evalResult, err = behavior.Eval(taskInst)
 	}
 
+	inst.lockScheduling()
+	defer inst.unlockScheduling()
+
+	if !taskInst.isCurrent() {
+		// the flow of the task has ended or abandoned it in the meantime
+		return
+	}
+
 	if err != nil {
 		//taskInst.returnError = err
 		inst.handleTaskError(behavior, taskInst, err)
@@ -714,11 +760,6 @@ func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 }
 
 func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []*model.TaskEntry) error {
-	if inst.actSchedLock != nil {
-		// Lock is set only when concurrent executaion is enabled
-		inst.actSchedLock.Lock()
-		defer inst.actSchedLock.Unlock()
-	}
 
 	handlingError := activeInst.isHandlingError
 
@@ -806,6 +847,8 @@ func (inst *IndependentInstance) addSubFlowToCoverage(subFlowName, subFlowActivi
 		SubFlowActivity: subFlowActivity,
 		SubFlowName:     subFlowName,
 	}
+	inst.lockScheduling()
+	defer inst.unlockScheduling()
 	inst.interceptor.AddToSubFlowCoverage(coverage)
 }
 
diff --git a/instance/taskinst.go b/instance/taskinst.go
index afdb627..f90a5e6 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -3,6 +3,7 @@ package instance
 import (
 	"fmt"
 	"runtime/debug"
+	"sync"
 	"time"
 
 	"github.com/project-flogo/flow/support"
@@ -80,6 +81,8 @@ type TaskInst struct {
 	scheduled bool
 	// When concurrent execution mode is enabled, this flag determines whether task should execute on a separate goroutine or not
 	asyncExec bool
+	// When concurrent execution mode is enabled, this lock ensures that task is executed by one goroutine at a time
+	execLock sync.Mutex
 }
 
 /////////////////////////////////////////
-- 
2.43.0


From c41fdc0f5e5fb99086e2ed5a3ed515635c16ba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 18/93] fix: an assigned flow output is not replaced by its
 declared default

---
 instance/instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instance/instance.go b/instance/instance.go
index 692d24d..5313f8f 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -204,8 +204,8 @@ func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
 				piAttr, exists := inst.attrs[name]
 				if exists {
 					returnData[name] = piAttr
-				}
-				if md.Output[name].Value() != nil {
+				} else if md.Output[name].Value() != nil {
+					//not assigned, so it has its declared value
 					returnData[name] = md.Output[name].Value()
 				}
 			}
-- 
2.43.0


From a2dc5c6ee63f26db1eca7846db9b7030facb9292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 19/93] fix: the error of a task without name tells which task
 failed

---
 instance/taskinst.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index f90a5e6..d2f774b 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -594,7 +594,9 @@ func (ti *TaskInst) getErrorObject(err error) map[string]interface{} {
 		}
 	case *ActivityEvalError:
 		errorObj["type"] = e.Type()
-		errorObj["activity"] = e.TaskName()
+		if e.TaskName() != "" {
+			errorObj["activity"] = e.TaskName()
+		}
 	}
 	return errorObj
 }
-- 
2.43.0


From 7c0a77a2fb43d7ed62d4a462f1bd2d7e6af80a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 20/93] fix: an error of a subflow that is not retriable is not
 retried

---
 model/simple/taskbehavior.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/simple/taskbehavior.go b/model/simple/taskbehavior.go
index fd34031..76b6dbb 100755
--- a/model/simple/taskbehavior.go
+++ b/model/simple/taskbehavior.go
@@ -157,8 +157,8 @@ func (tb *TaskBehavior) PostEval(ctx model.TaskContext) (evalResult model.EvalRe
 	_, err = ctx.PostEvalActivity()
 
 	if err != nil {
-		//// check if error returned is retriable
-		if _, ok := err.(*activity.Error); ok && ctx.Task().RetryOnErrConfig() != nil {
+		// check if error returned is retriable
+		if errVal, ok := err.(*activity.Error); ok && errVal.Retriable() && ctx.Task().RetryOnErrConfig() != nil {
 			retryData, rerr := getRetryData(ctx)
 			if rerr != nil {
 				return model.EvalFail, rerr
-- 
2.43.0


From fce3b84b7cc33ed92682475259862e2b4f978d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 21/93] fix: a run stopped by the step limit ends as failed,
 also when it is recorded, and in concurrent mode at the same limit

---
 action.go                | 18 ++++--------------
 instance/ind_instance.go | 12 +++++++++++-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/action.go b/action.go
index fc6a600..56397e3 100644
--- a/action.go
+++ b/action.go
@@ -375,13 +375,8 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		if instance.IsConcurrentTaskExcutionEnabled() {
 			logger.Info("Concurrent flow execution feature is enabled. All independent activities will run concurrently.")
 			err := inst.DoStepInLoop()
-			if err != nil && inst.Status() != model.FlowStatusCompleted {
-				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
-				if inst.TracingContext() != nil {
-					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
-				}
-				handler.HandleResult(nil, err)
-				return
+			if err != nil {
+				inst.Fail(err)
 			}
 		} else {
 			for hasWork && inst.Status() < model.FlowStatusCompleted && stepCount < maxStepCount {
@@ -393,13 +388,8 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					inst.RecordState(taskStartTime)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() != model.FlowStatusCompleted {
-				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
-				if inst.TracingContext() != nil {
-					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
-				}
-				handler.HandleResult(nil, err)
-				return
+			if stepCount >= maxStepCount {
+				inst.Fail(fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
 			}
 		}
 
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 4b1c63c..763626b 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -354,7 +354,7 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 		item, ok := inst.workItemQueue.Pop()
 		if ok {
 			wi := item.(*WorkItem)
-			if stepCount > util.GetMaxStepCount() {
+			if stepCount >= util.GetMaxStepCount() {
 				return fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), util.GetMaxStepCount(), util.FlogoStepCountEnv)
 			}
 			inst.ResetChanges()
@@ -730,6 +730,16 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 	}
 }
 
+// Fail ends the flow instance with the given error, unless it has already ended
+func (inst *IndependentInstance) Fail(err error) {
+	inst.lockScheduling()
+	defer inst.unlockScheduling()
+
+	if inst.Instance.Status() < model.FlowStatusCompleted {
+		inst.failFlow(inst.Instance, err)
+	}
+}
+
 // failFlow ends the flow with the given error and hands the error to whoever started the flow
 func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 
-- 
2.43.0


From 2ed18f0cb08e4668a41ef4e7976f679851ee9e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:40 +0000
Subject: [PATCH 22/93] fix: reading the attributes of a flow no longer races
 with a task that is still running

---
 instance/flowevents.go   |  2 +-
 instance/ind_instance.go |  7 ++-----
 instance/instance.go     | 22 ++++++++++++++++++----
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/instance/flowevents.go b/instance/flowevents.go
index 764886d..43b2aaa 100644
--- a/instance/flowevents.go
+++ b/instance/flowevents.go
@@ -90,7 +90,7 @@ func postFlowEvent(inst *Instance) {
 		fe.output = make(map[string]interface{})
 
 		if fe.status != event.CREATED {
-			attrs := inst.attrs
+			attrs := inst.currentAttrs()
 			outData, _ := inst.GetReturnData()
 			if attrs != nil && len(attrs) > 0 {
 				for name, attVal := range attrs {
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 763626b..c57b667 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -1052,11 +1052,8 @@ func populateBaseSnapshot(inst *Instance, base *state.SnapshotBase) {
 	base.FlowURI = inst.flowURI
 	base.Status = int(inst.status)
 
-	if len(inst.attrs) > 0 {
-		base.Attrs = make(map[string]interface{}, len(inst.attrs))
-		for name, value := range inst.attrs {
-			base.Attrs[name] = value
-		}
+	if attrs := inst.currentAttrs(); len(attrs) > 0 {
+		base.Attrs = attrs
 	}
 
 	if len(inst.taskInsts) > 0 {
diff --git a/instance/instance.go b/instance/instance.go
index 5313f8f..b593bdf 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -189,6 +189,10 @@ func (inst *Instance) GetError() error {
 }
 
 func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
 
 	returnData := inst.returnData
 
@@ -224,15 +228,25 @@ func (inst *Instance) Status() model.FlowStatus {
 }
 
 func (inst *Instance) SetStatus(status model.FlowStatus) {
-	if inst.lock != nil {
-		inst.lock.Lock()
-		defer inst.lock.Unlock()
-	}
 	inst.status = status
 	inst.master.changeTracker.SetStatus(inst.subflowId, status)
 	postFlowEvent(inst)
 }
 
+// currentAttrs gets the current attributes, which can still change as long as the flow runs
+func (inst *Instance) currentAttrs() map[string]interface{} {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+
+	attrs := make(map[string]interface{}, len(inst.attrs))
+	for name, value := range inst.attrs {
+		attrs[name] = value
+	}
+	return attrs
+}
+
 // FlowDefinition returns the Flow definition associated with this context
 func (inst *Instance) FlowDefinition() *definition.Definition {
 	return inst.flowDef
-- 
2.43.0


From ea867b25666634f3743a77ff159e07617a07eab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 23/93] fix: a looping task ends when its transition runs, not
 before it

---
 model/simple/dowhilebehavior.go  | 4 ----
 model/simple/iteratorbehavior.go | 3 ---
 2 files changed, 7 deletions(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index 22b6302..54c2515 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -39,7 +39,6 @@ func (dw *DoWhileTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Eva
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
 
@@ -61,7 +60,6 @@ func (dw *DoWhileTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
 	defer dw.updateDoWhileIndex(ctx)
@@ -69,8 +67,6 @@ func (dw *DoWhileTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model
 	if evalResult == model.EvalRepeat {
 		//execute again, instead of waiting
 		ctx.SetStatus(model.TaskStatusReady)
-	} else {
-		ctx.SetStatus(model.TaskStatusDone)
 	}
 	return evalResult, err
 }
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index 8cad1b1..f6dad18 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -127,7 +127,6 @@ func (tb *IteratorTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Ev
 		if err != nil {
 			ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 			ctx.FlowLogger().Errorf("Error evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-			ctx.SetStatus(model.TaskStatusFailed)
 			return model.EvalFail, err
 		}
 
@@ -158,7 +157,6 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
 	itxAttr, _ := ctx.GetWorkingData("_iterator")
@@ -170,7 +168,6 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 		return model.EvalRepeat, nil
 	}
 
-	ctx.SetStatus(model.TaskStatusDone)
 	return model.EvalDone, nil
 }
 
-- 
2.43.0


From 8408f5d34bdda38faa7c3562b214c3ee6e3489e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 24/93] fix: a flow with a task without activity or with two
 tasks of the same id is rejected

---
 definition/definition_ser.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/definition/definition_ser.go b/definition/definition_ser.go
index 010a65a..ef1e21b 100644
--- a/definition/definition_ser.go
+++ b/definition/definition_ser.go
@@ -81,6 +81,9 @@ func NewDefinition(rep *DefinitionRep) (def *Definition, err error) {
 			if err != nil {
 				return nil, fmt.Errorf("error creating task [%s] in flow [%s]: %s", taskRep.ID, rep.Name, err.Error())
 			}
+			if _, exists := def.tasks[task.id]; exists {
+				return nil, fmt.Errorf("duplicate task [%s] in flow [%s]", task.id, rep.Name)
+			}
 			def.tasks[task.id] = task
 		}
 	}
@@ -120,6 +123,9 @@ func NewDefinition(rep *DefinitionRep) (def *Definition, err error) {
 				if err != nil {
 					return nil, fmt.Errorf("error creating task [%s] in flow [%s]'s error handler:%s", taskRep.ID, rep.Name, err.Error())
 				}
+				if _, exists := errorHandler.tasks[task.id]; exists {
+					return nil, fmt.Errorf("duplicate task [%s] in flow [%s]'s error handler", task.id, rep.Name)
+				}
 				errorHandler.tasks[task.id] = task
 			}
 		}
@@ -174,21 +180,21 @@ func createTask(def *Definition, rep *TaskRep, ef expression.Factory) (*Task, er
 		return nil, err
 	}
 
-	if rep.ActivityCfgRep != nil {
-
-		actCfg, err := createActivityConfig(task, rep.ActivityCfgRep, ef)
-
-		if err != nil {
-			return nil, err
-		}
+	if rep.ActivityCfgRep == nil {
+		return nil, errors.New("activity not specified")
+	}
 
-		if (actCfg.Details != nil && (actCfg.Details.IsReturn || actCfg.Details.IsReply)) || def.explicitReply {
-			def.explicitReply = true
-		}
+	actCfg, err := createActivityConfig(task, rep.ActivityCfgRep, ef)
+	if err != nil {
+		return nil, err
+	}
 
-		task.activityCfg = actCfg
+	if (actCfg.Details != nil && (actCfg.Details.IsReturn || actCfg.Details.IsReply)) || def.explicitReply {
+		def.explicitReply = true
 	}
 
+	task.activityCfg = actCfg
+
 	return task, nil
 }
 
-- 
2.43.0


From 5065f1b15203cc3ad5df309c3f5ed3247c4ef9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 25/93] fix: a flow whose metadata makes the parser panic is
 rejected with an error

---
 support/resource.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support/resource.go b/support/resource.go
index 6cb1d98..4b07305 100644
--- a/support/resource.go
+++ b/support/resource.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/project-flogo/core/app/resource"
+	"github.com/project-flogo/core/support"
 	"github.com/project-flogo/flow/definition"
 )
 
@@ -15,13 +16,17 @@ const (
 type FlowLoader struct {
 }
 
-func (*FlowLoader) LoadResource(config *resource.Config) (*resource.Resource, error) {
+func (*FlowLoader) LoadResource(config *resource.Config) (res *resource.Resource, err error) {
+
+	// parsing the metadata of a malformed document can panic
+	defer support.HandlePanic("LoadResource", &err)
+
 	var flowDefBytes []byte
 
 	flowDefBytes = config.Data
 
 	var defRep *definition.DefinitionRep
-	err := json.Unmarshal(flowDefBytes, &defRep)
+	err = json.Unmarshal(flowDefBytes, &defRep)
 	if err != nil {
 		return nil, fmt.Errorf("error loading flow resource with id '%s': %s", config.ID, err.Error())
 	}
-- 
2.43.0


From b50ad56db443c879161375b0a2cda4728d68980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 26/93] fix: the work queue of a deserialized instance is in
 the order of the saved one

---
 instance/instance_ser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 2f56db3..e7dbb74 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -113,7 +113,13 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 
 	inst.workItemQueue = support.NewSyncQueue()
 
-	for _, workItem := range ser.WorkQueue {
+	//the first work item is the next one, i.e. the one that was pushed last
+	for i := len(ser.WorkQueue) - 1; i >= 0; i-- {
+
+		workItem := ser.WorkQueue[i]
+		if workItem.ID > inst.wiCounter {
+			inst.wiCounter = workItem.ID
+		}
 
 		taskInsts := inst.taskInsts
 
-- 
2.43.0


From c5e8a193cc78b50d3b02aaf14492a6aff2fed73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 27/93] fix: what a flow returned and that it handles an error
 is part of its serialized state

---
 instance/instance_ser.go | 90 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 90 insertions(+)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index e7dbb74..f7470a9 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -2,7 +2,11 @@ package instance
 
 import (
 	"encoding/json"
+	"errors"
+
+	"github.com/project-flogo/core/activity"
 	"github.com/project-flogo/core/support"
+	"github.com/project-flogo/flow/definition"
 	"github.com/project-flogo/flow/model"
 )
 
@@ -18,6 +22,7 @@ type serIndependentInstance struct {
 	TaskInsts []*TaskInst            `json:"tasks"`
 	LinkInsts []*LinkInst            `json:"links"`
 	SubFlows  []*Instance            `json:"subFlows,omitempty"`
+	serOutcome
 }
 
 // MarshalJSON overrides the default MarshalJSON for FlowInstance
@@ -58,6 +63,8 @@ func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 		TaskInsts: tis,
 		LinkInsts: lis,
 		SubFlows:  sfs,
+
+		serOutcome: newSerOutcome(inst.Instance),
 	})
 }
 
@@ -73,6 +80,7 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 	inst.id = ser.ID
 	inst.status = ser.Status
 	inst.flowURI = ser.FlowURI
+	ser.serOutcome.apply(inst.Instance)
 
 	inst.attrs = make(map[string]interface{}, len(ser.Attrs))
 
@@ -144,6 +152,7 @@ type serInstance struct {
 	Attrs     map[string]interface{} `json:"attrs"`
 	TaskInsts []*TaskInst            `json:"tasks"`
 	LinkInsts []*LinkInst            `json:"links"`
+	serOutcome
 }
 
 // MarshalJSON overrides the default MarshalJSON for FlowInstance
@@ -174,6 +183,8 @@ func (inst *Instance) MarshalJSON() ([]byte, error) {
 		FlowURI:   inst.flowURI,
 		TaskInsts: tis,
 		LinkInsts: lis,
+
+		serOutcome: newSerOutcome(inst),
 	})
 }
 
@@ -188,6 +199,7 @@ func (inst *Instance) UnmarshalJSON(d []byte) error {
 	inst.subflowId = ser.SubFlowId
 	inst.status = ser.Status
 	inst.flowURI = ser.FlowURI
+	ser.serOutcome.apply(inst)
 
 	inst.attrs = make(map[string]interface{}, len(ser.Attrs))
 
@@ -210,6 +222,84 @@ func (inst *Instance) UnmarshalJSON(d []byte) error {
 	return nil
 }
 
+////////////////////////////////////////////////////////////////////////////////////////////////////////
+// Serialization of what a flow returns and of the errors that it handles
+
+type serOutcome struct {
+	HandlingError bool                   `json:"handlingError,omitempty"`
+	Returned      bool                   `json:"returned,omitempty"`
+	ReturnData    map[string]interface{} `json:"returnData"`
+	ReturnError   *serError              `json:"returnError,omitempty"`
+}
+
+func newSerOutcome(inst *Instance) serOutcome {
+	return serOutcome{
+		HandlingError: inst.isHandlingError,
+		Returned:      inst.forceCompletion,
+		ReturnData:    inst.returnData,
+		ReturnError:   newSerError(inst.returnError),
+	}
+}
+
+func (so *serOutcome) apply(inst *Instance) {
+	inst.isHandlingError = so.HandlingError
+	inst.forceCompletion = so.Returned
+	inst.returnData = so.ReturnData
+	inst.returnError = so.ReturnError.toError()
+}
+
+// serError is the serialized form of an error
+type serError struct {
+	Kind      string      `json:"kind,omitempty"`
+	Message   string      `json:"message"`
+	Activity  string      `json:"activity,omitempty"`
+	Type      string      `json:"type,omitempty"`
+	Code      string      `json:"code,omitempty"`
+	Data      interface{} `json:"data,omitempty"`
+	Retriable bool        `json:"retriable,omitempty"`
+}
+
+const (
+	errKindActivity = "activity"
+	errKindEval     = "eval"
+	errKindLinkExpr = "link_expr"
+)
+
+func newSerError(err error) *serError {
+	if err == nil {
+		return nil
+	}
+	switch e := err.(type) {
+	case *activity.Error:
+		return &serError{Kind: errKindActivity, Message: e.Error(), Activity: e.ActivityName(), Code: e.Code(), Data: e.Data(), Retriable: e.Retriable()}
+	case *ActivityEvalError:
+		return &serError{Kind: errKindEval, Message: e.Error(), Activity: e.TaskName(), Type: e.Type()}
+	case *definition.LinkExprError:
+		return &serError{Kind: errKindLinkExpr, Message: e.Error()}
+	}
+	return &serError{Message: err.Error()}
+}
+
+func (se *serError) toError() error {
+	if se == nil {
+		return nil
+	}
+	switch se.Kind {
+	case errKindActivity:
+		e := activity.NewError(se.Message, se.Code, se.Data)
+		if se.Retriable {
+			e = activity.NewRetriableError(se.Message, se.Code, se.Data)
+		}
+		e.SetActivityName(se.Activity)
+		return e
+	case errKindEval:
+		return NewActivityEvalError(se.Activity, se.Type, se.Message)
+	case errKindLinkExpr:
+		return definition.NewLinkExprError(se.Message)
+	}
+	return errors.New(se.Message)
+}
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////////
 // TaskInst Serialization
 
-- 
2.43.0


From 9dd82cddebbccbff261a9a8a84a7afa254e285eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 28/93] fix: links and tasks of an error handler are found when
 an instance is restarted, unknown ones are an error

---
 definition/definition.go |  5 +++++
 instance/ind_instance.go | 22 ++++++++++++++++------
 instance/instance.go     | 24 ++++++++++++++++++++++++
 instance/taskinst.go     |  9 ---------
 4 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/definition/definition.go b/definition/definition.go
index 8f6808f..d447a00 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -515,3 +515,8 @@ func (eh *ErrorHandler) Tasks() []*Task {
 func (eh *ErrorHandler) GetTask(taskID string) *Task {
 	return eh.tasks[taskID]
 }
+
+// GetLink returns the link with the specified ID
+func (eh *ErrorHandler) GetLink(linkID int) *Link {
+	return eh.links[linkID]
+}
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index c57b667..476de8e 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -947,7 +947,10 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 		return err
 	}
 	inst.master = inst
-	inst.init(inst.Instance)
+	err = inst.init(inst.Instance)
+	if err != nil {
+		return err
+	}
 
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
 	inst.changeTracker.FlowCreated(inst)
@@ -988,18 +991,25 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 	return nil
 }
 
-func (inst *IndependentInstance) init(flowInst *Instance) {
+func (inst *IndependentInstance) init(flowInst *Instance) error {
 
 	for _, taskInst := range flowInst.taskInsts {
-		initTaskInst(taskInst, flowInst, nil)
-		//v.flowInst = flowInst
-		//v.task = flowInst.flowDef.GetTask(v.taskID)
+		task := flowInst.findTask(taskInst.taskID)
+		if task == nil {
+			return fmt.Errorf("unable to resolve task [%s] in flow [%s]", taskInst.taskID, flowInst.Name())
+		}
+		initTaskInst(taskInst, flowInst, task)
 	}
 
 	for _, linkInst := range flowInst.linkInsts {
 		linkInst.flowInst = flowInst
-		linkInst.link = flowInst.flowDef.GetLink(linkInst.id)
+		linkInst.link = flowInst.findLink(linkInst.id)
+		if linkInst.link == nil {
+			return fmt.Errorf("unable to resolve link [%d] in flow [%s]", linkInst.id, flowInst.Name())
+		}
 	}
+
+	return nil
 }
 
 func (inst *IndependentInstance) SetTracingContext(tracingCtx trace.TracingContext) {
diff --git a/instance/instance.go b/instance/instance.go
index b593bdf..abd7051 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -266,6 +266,30 @@ func (inst *Instance) TaskInstances() []model.TaskInstance {
 	return taskInsts
 }
 
+// findTask finds the task with the specified ID in the flow or in its error handler
+func (inst *Instance) findTask(taskID string) *definition.Task {
+	eh := inst.flowDef.GetErrorHandler()
+	if inst.isHandlingError && eh != nil {
+		if task := eh.GetTask(taskID); task != nil {
+			return task
+		}
+	}
+	task := inst.flowDef.GetTask(taskID)
+	if task == nil && eh != nil {
+		task = eh.GetTask(taskID)
+	}
+	return task
+}
+
+// findLink finds the link with the specified ID in the flow or in its error handler
+func (inst *Instance) findLink(linkID int) *definition.Link {
+	link := inst.flowDef.GetLink(linkID)
+	if eh := inst.flowDef.GetErrorHandler(); link == nil && eh != nil {
+		link = eh.GetLink(linkID)
+	}
+	return link
+}
+
 func (inst *Instance) Logger() log.Logger {
 	return inst.logger
 }
diff --git a/instance/taskinst.go b/instance/taskinst.go
index d2f774b..406005c 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -38,15 +38,6 @@ func NewTaskInst(flowInst *Instance, task *definition.Task) *TaskInst {
 
 func initTaskInst(taskInst *TaskInst, flowInst *Instance, task *definition.Task) {
 
-	if task == nil {
-		task = flowInst.flowDef.GetTask(taskInst.taskID)
-	}
-
-	if task == nil {
-		//unable find task from flow, try to get from error handler
-		task = flowInst.flowDef.GetErrorHandler().GetTask(taskInst.taskID)
-	}
-
 	taskInst.flowInst = flowInst
 	taskInst.task = task
 	taskInst.taskID = task.ID()
-- 
2.43.0


From 049fc901daafb537511f0c237d81dce080e6867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 29/93] fix: the data of a task and the state of its loop and
 retries are part of its serialized state

---
 instance/instance_ser.go         | 47 ++++++++++++-----
 instance/taskinst.go             |  3 ++
 model/simple/dowhilebehavior.go  | 23 +++++++--
 model/simple/iteratorbehavior.go | 87 +++++++++++++++++++++++++++++++-
 model/simple/retry.go            |  6 ++-
 5 files changed, 148 insertions(+), 18 deletions(-)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index f7470a9..e9eab58 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -303,24 +303,37 @@ func (se *serError) toError() error {
 ////////////////////////////////////////////////////////////////////////////////////////////////////////
 // TaskInst Serialization
 
+type serTaskInst struct {
+	TaskID      string                 `json:"id"`
+	Status      int                    `json:"status"`
+	Inputs      map[string]interface{} `json:"inputs,omitempty"`
+	Outputs     map[string]interface{} `json:"outputs,omitempty"`
+	Settings    map[string]interface{} `json:"settings,omitempty"`
+	WorkingData map[string]interface{} `json:"workingData,omitempty"`
+	ReturnError *serError              `json:"returnError,omitempty"`
+}
+
 // MarshalJSON overrides the default MarshalJSON for TaskInst
 func (ti *TaskInst) MarshalJSON() ([]byte, error) {
 
-	return json.Marshal(&struct {
-		TaskID string `json:"id"`
-		Status int    `json:"status"`
-	}{
-		TaskID: ti.task.ID(),
-		Status: int(ti.status),
-	})
+	ser := &serTaskInst{
+		TaskID:      ti.taskID,
+		Status:      int(ti.status),
+		Inputs:      ti.inputs,
+		Outputs:     ti.outputs,
+		Settings:    ti.settings,
+		ReturnError: newSerError(ti.returnError),
+	}
+	if ti.workingData != nil {
+		ser.WorkingData = ti.workingData.workingData
+	}
+
+	return json.Marshal(ser)
 }
 
 // UnmarshalJSON overrides the default UnmarshalJSON for TaskInst
 func (ti *TaskInst) UnmarshalJSON(d []byte) error {
-	ser := &struct {
-		TaskID string `json:"id"`
-		Status int    `json:"status"`
-	}{}
+	ser := &serTaskInst{}
 
 	if err := json.Unmarshal(d, ser); err != nil {
 		return err
@@ -328,6 +341,16 @@ func (ti *TaskInst) UnmarshalJSON(d []byte) error {
 
 	ti.status = model.TaskStatus(ser.Status)
 	ti.taskID = ser.TaskID
+	ti.id = ser.TaskID
+	ti.scheduled = ti.status == model.TaskStatusReady || ti.status == model.TaskStatusWaiting
+	ti.inputs = ser.Inputs
+	ti.outputs = ser.Outputs
+	ti.settings = ser.Settings
+	ti.returnError = ser.ReturnError.toError()
+	if ser.WorkingData != nil {
+		//the parent scope is set when the task instance is initialized
+		ti.workingData = &WorkingDataScope{workingData: ser.WorkingData}
+	}
 
 	return nil
 }
@@ -423,7 +446,7 @@ func (li *LinkInst) MarshalJSON() ([]byte, error) {
 		LinkID int `json:"linkId"`
 		Status int `json:"status"`
 	}{
-		LinkID: li.link.ID(),
+		LinkID: li.id,
 		Status: int(li.status),
 	})
 }
diff --git a/instance/taskinst.go b/instance/taskinst.go
index 406005c..c93d1a5 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -41,6 +41,9 @@ func initTaskInst(taskInst *TaskInst, flowInst *Instance, task *definition.Task)
 	taskInst.flowInst = flowInst
 	taskInst.task = task
 	taskInst.taskID = task.ID()
+	if taskInst.workingData != nil {
+		taskInst.workingData.parent = flowInst
+	}
 
 	if log.CtxLoggingEnabled() {
 		taskInst.logger = log.ChildLoggerWithFields(task.ActivityConfig().Logger, log.FieldString("activityName", taskInst.taskID), log.FieldString("flowName", flowInst.Name()), log.FieldString("flowId", flowInst.ID()))
diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index 54c2515..8d36f98 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -113,19 +113,36 @@ func getScope(t *instance.TaskInst) data.Scope {
 }
 
 func (dw *DoWhileTaskBehavior) updateDoWhileIndex(ctx model.TaskContext) {
-	dowhileObj, ok := ctx.GetWorkingData("iteration")
+	dowhileObj, ok := getDoWhile(ctx)
 	if !ok {
 		dowhileObj = &DoWhile{Index: 1}
 	} else {
-		dowhileObj.(*DoWhile).Index++
+		dowhileObj.Index++
 	}
 	ctx.SetWorkingData("iteration", dowhileObj)
 }
 
 func initIndex(ctx model.TaskContext) {
-	dowhileObj, ok := ctx.GetWorkingData("iteration")
+	dowhileObj, ok := getDoWhile(ctx)
 	if !ok {
 		dowhileObj = &DoWhile{Index: 0}
 	}
 	ctx.SetWorkingData("iteration", dowhileObj)
 }
+
+// getDoWhile gets the state of the loop from the working data of the task, which is in its
+// serialized form if the flow instance was restarted
+func getDoWhile(ctx model.TaskContext) (*DoWhile, bool) {
+	value, ok := ctx.GetWorkingData("iteration")
+	if !ok {
+		return nil, false
+	}
+	dowhileObj, ok := value.(*DoWhile)
+	if !ok {
+		dowhileObj = &DoWhile{}
+		if err := fromSerialized(value, dowhileObj); err != nil {
+			return nil, false
+		}
+	}
+	return dowhileObj, true
+}
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index f6dad18..30336fa 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -1,6 +1,7 @@
 package simple
 
 import (
+	"encoding/json"
 	"fmt"
 	"reflect"
 	"time"
@@ -37,7 +38,10 @@ func (tb *IteratorTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Ev
 	iterationAttr, _ := ctx.GetWorkingData("iteration")
 
 	if ok {
-		itx = itxAttr.(Iterator)
+		itx, err = toIterator(ctx, itxAttr)
+		if err != nil {
+			return model.EvalFail, err
+		}
 	} else {
 
 		if ctx.Task().LoopConfig() == nil {
@@ -160,7 +164,10 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 		return model.EvalFail, err
 	}
 	itxAttr, _ := ctx.GetWorkingData("_iterator")
-	itx := itxAttr.(Iterator)
+	itx, err := toIterator(ctx, itxAttr)
+	if err != nil {
+		return model.EvalFail, err
+	}
 
 	if itx.HasNext() {
 		//execute again, instead of waiting or being done
@@ -202,6 +209,54 @@ type Iterator interface {
 	Index() int
 }
 
+// iteratorState is the serialized form of an iterator
+type iteratorState struct {
+	Current int                    `json:"current"`
+	Count   *int                   `json:"count,omitempty"`
+	Array   []interface{}          `json:"array,omitempty"`
+	Keys    []string               `json:"keys,omitempty"`
+	Object  map[string]interface{} `json:"object,omitempty"`
+}
+
+// toIterator gets the iterator from the working data of the task, which is in its serialized form
+// if the flow instance was restarted
+func toIterator(ctx model.TaskContext, value interface{}) (Iterator, error) {
+	if itx, ok := value.(Iterator); ok {
+		return itx, nil
+	}
+
+	ser := &iteratorState{}
+	if err := fromSerialized(value, ser); err != nil {
+		return nil, fmt.Errorf("iterator '%s' cannot be restored: %s", ctx.Task().Name(), err.Error())
+	}
+
+	var itx Iterator
+	switch {
+	case ser.Count != nil:
+		itx = &IntIterator{current: ser.Current, count: *ser.Count}
+	case ser.Object != nil:
+		keyMap := make(map[int]string, len(ser.Keys))
+		for i, key := range ser.Keys {
+			keyMap[i] = key
+		}
+		itx = &ObjectIterator{current: ser.Current, keyMap: keyMap, data: ser.Object}
+	default:
+		itx = &ArrayIterator{current: ser.Current, data: ser.Array}
+	}
+	ctx.SetWorkingData("_iterator", itx)
+
+	return itx, nil
+}
+
+// fromSerialized fills the target with data that went through a serialization of the flow instance
+func fromSerialized(value interface{}, target interface{}) error {
+	b, err := json.Marshal(value)
+	if err != nil {
+		return err
+	}
+	return json.Unmarshal(b, target)
+}
+
 type ArrayIterator struct {
 	current int
 	data    []interface{}
@@ -234,6 +289,11 @@ func (itx *ArrayIterator) next() bool {
 	return true
 }
 
+// MarshalJSON implements json.Marshaler
+func (itx *ArrayIterator) MarshalJSON() ([]byte, error) {
+	return json.Marshal(&iteratorState{Current: itx.current, Array: itx.data})
+}
+
 func NewArrayIterator(data []interface{}) *ArrayIterator {
 	return &ArrayIterator{data: data, current: -1}
 }
@@ -270,6 +330,11 @@ func (itx *IntIterator) next() bool {
 	return true
 }
 
+// MarshalJSON implements json.Marshaler
+func (itx *IntIterator) MarshalJSON() ([]byte, error) {
+	return json.Marshal(&iteratorState{Current: itx.current, Count: &itx.count})
+}
+
 func NewIntIterator(count int) *IntIterator {
 	return &IntIterator{count: count, current: -1}
 }
@@ -308,6 +373,15 @@ func (itx *ObjectIterator) Index() int {
 	return itx.current
 }
 
+// MarshalJSON implements json.Marshaler
+func (itx *ObjectIterator) MarshalJSON() ([]byte, error) {
+	keys := make([]string, len(itx.keyMap))
+	for i, key := range itx.keyMap {
+		keys[i] = key
+	}
+	return json.Marshal(&iteratorState{Current: itx.current, Keys: keys, Object: itx.data})
+}
+
 func NewObjectIterator(data map[string]interface{}) *ObjectIterator {
 	keyMap := make(map[int]string, len(data))
 	i := 0
@@ -352,6 +426,15 @@ func (itx *ReflectIterator) Index() int {
 	return itx.current
 }
 
+// MarshalJSON implements json.Marshaler
+func (itx *ReflectIterator) MarshalJSON() ([]byte, error) {
+	array := make([]interface{}, itx.val.Len())
+	for i := range array {
+		array[i] = itx.val.Index(i).Interface()
+	}
+	return json.Marshal(&iteratorState{Current: itx.current, Array: array})
+}
+
 func NewReflectIterator(val reflect.Value) *ReflectIterator {
 	return &ReflectIterator{val: val, current: -1}
 }
diff --git a/model/simple/retry.go b/model/simple/retry.go
index 5590148..9bba4bb 100644
--- a/model/simple/retry.go
+++ b/model/simple/retry.go
@@ -45,7 +45,11 @@ func getRetryData(ctx model.TaskContext) (retryData *RetryData, err error) {
 	} else {
 		retryData, ok = rd.(*RetryData)
 		if !ok {
-			return nil, fmt.Errorf("error getting retry data")
+			// the flow instance was restarted
+			retryData = &RetryData{}
+			if err := fromSerialized(rd, retryData); err != nil {
+				return nil, fmt.Errorf("error getting retry data")
+			}
 		}
 	}
 
-- 
2.43.0


From 72ab2106fad4e5afc9b287081e5a58961ab49580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:53 +0000
Subject: [PATCH 30/93] fix: subflows of a serialized instance are bound to the
 tasks that called them when it is restarted

---
 instance/ind_instance.go | 46 +++++++++++++++++++++++
 instance/instance.go     |  2 +
 instance/instance_ser.go | 80 ++++++++++++++++++++++++++++------------
 3 files changed, 105 insertions(+), 23 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 476de8e..ecd6fe7 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -951,6 +951,10 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 	if err != nil {
 		return err
 	}
+	err = inst.initSubflows()
+	if err != nil {
+		return err
+	}
 
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
 	inst.changeTracker.FlowCreated(inst)
@@ -1012,6 +1016,48 @@ func (inst *IndependentInstance) init(flowInst *Instance) error {
 	return nil
 }
 
+// initSubflows initializes the embedded instances of a deserialized instance
+func (inst *IndependentInstance) initSubflows() error {
+
+	for id, subflow := range inst.subflows {
+		def, _, err := flowsupport.GetDefinition(subflow.flowURI)
+		if err != nil {
+			return err
+		}
+		if def == nil {
+			return errors.New("unable to resolve subflow: " + subflow.flowURI)
+		}
+		subflow.flowDef = def
+		subflow.master = inst
+		subflow.logger = inst.logger
+
+		if subflow.host != nil {
+			continue
+		}
+		hostFlow := inst.Instance
+		if subflow.hostRef.subflowId > 0 {
+			hostFlow = inst.subflows[subflow.hostRef.subflowId]
+		}
+		if hostFlow == nil || hostFlow.taskInsts[subflow.hostRef.taskID] == nil {
+			return fmt.Errorf("unable to resolve host task [%s] of subflow [%d]", subflow.hostRef.taskID, id)
+		}
+		subflow.host = hostFlow.taskInsts[subflow.hostRef.taskID]
+	}
+
+	for _, subflow := range inst.subflows {
+		if err := inst.init(subflow); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+// initialized tells if the instance is bound to its flow, i.e. if it was not just deserialized
+func (inst *IndependentInstance) initialized() bool {
+	return inst.master != nil
+}
+
 func (inst *IndependentInstance) SetTracingContext(tracingCtx trace.TracingContext) {
 	inst.tracingCtx = tracingCtx
 }
diff --git a/instance/instance.go b/instance/instance.go
index abd7051..85bf59f 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -19,6 +19,8 @@ type Instance struct {
 	master *IndependentInstance //needed for change tracker
 	host   interface{}          //todo change to TaskInst?
 
+	hostRef taskRef //needed for serialization, refers to the host until the instance is restarted
+
 	isHandlingError bool
 
 	status  model.FlowStatus
diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index e9eab58..ac2b79a 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -3,6 +3,7 @@ package instance
 import (
 	"encoding/json"
 	"errors"
+	"fmt"
 
 	"github.com/project-flogo/core/activity"
 	"github.com/project-flogo/core/support"
@@ -14,24 +15,28 @@ import (
 // Flow Instance Serialization
 
 type serIndependentInstance struct {
-	ID        string                 `json:"id"`
-	Status    model.FlowStatus       `json:"status"`
-	FlowURI   string                 `json:"flowUri"`
-	Attrs     map[string]interface{} `json:"attrs"`
-	WorkQueue []*WorkItem            `json:"workQueue"`
-	TaskInsts []*TaskInst            `json:"tasks"`
-	LinkInsts []*LinkInst            `json:"links"`
-	SubFlows  []*Instance            `json:"subFlows,omitempty"`
+	ID         string                 `json:"id"`
+	Status     model.FlowStatus       `json:"status"`
+	FlowURI    string                 `json:"flowUri"`
+	Attrs      map[string]interface{} `json:"attrs"`
+	WorkQueue  []*WorkItem            `json:"workQueue"`
+	TaskInsts  []*TaskInst            `json:"tasks"`
+	LinkInsts  []*LinkInst            `json:"links"`
+	SubFlows   []*Instance            `json:"subFlows,omitempty"`
+	SubFlowCtr int                    `json:"subFlowCtr,omitempty"`
 	serOutcome
 }
 
 // MarshalJSON overrides the default MarshalJSON for FlowInstance
 func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 
-	queue := make([]*WorkItem, inst.workItemQueue.List.Len())
+	queue := make([]*WorkItem, 0, inst.workItemQueue.List.Len())
 
-	for i, e := 0, inst.workItemQueue.List.Front(); e != nil; i, e = i+1, e.Next() {
-		queue[i], _ = e.Value.(*WorkItem)
+	for e := inst.workItemQueue.List.Front(); e != nil; e = e.Next() {
+		//there is nothing left to do for tasks that were abandoned
+		if workItem, ok := e.Value.(*WorkItem); ok && (!inst.initialized() || workItem.taskInst.isCurrent()) {
+			queue = append(queue, workItem)
+		}
 	}
 
 	attrs := make(map[string]interface{}, len(inst.attrs))
@@ -51,18 +56,25 @@ func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 
 	sfs := make([]*Instance, 0, len(inst.subflows))
 	for _, value := range inst.subflows {
+		if inst.initialized() {
+			if host, ok := value.host.(*TaskInst); !ok || value.status >= model.FlowStatusCompleted || !host.isCurrent() {
+				//the subflow has ended or was abandoned
+				continue
+			}
+		}
 		sfs = append(sfs, value)
 	}
 
 	return json.Marshal(&serIndependentInstance{
-		ID:        inst.id,
-		Status:    inst.status,
-		Attrs:     attrs,
-		FlowURI:   inst.flowURI,
-		WorkQueue: queue,
-		TaskInsts: tis,
-		LinkInsts: lis,
-		SubFlows:  sfs,
+		ID:         inst.id,
+		Status:     inst.status,
+		Attrs:      attrs,
+		FlowURI:    inst.flowURI,
+		WorkQueue:  queue,
+		TaskInsts:  tis,
+		LinkInsts:  lis,
+		SubFlows:   sfs,
+		SubFlowCtr: inst.subflowCtr,
 
 		serOutcome: newSerOutcome(inst.Instance),
 	})
@@ -102,7 +114,7 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 		inst.linkInsts[linkInst.id] = linkInst
 	}
 
-	subFlowCtr := 0
+	subFlowCtr := ser.SubFlowCtr
 
 	if len(ser.SubFlows) > 0 {
 
@@ -115,9 +127,8 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 				subFlowCtr = value.subflowId
 			}
 		}
-
-		inst.subflowCtr = subFlowCtr
 	}
+	inst.subflowCtr = subFlowCtr
 
 	inst.workItemQueue = support.NewSyncQueue()
 
@@ -132,10 +143,17 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 		taskInsts := inst.taskInsts
 
 		if workItem.SubFlowID > 0 {
-			taskInsts = inst.subflows[workItem.SubFlowID].taskInsts
+			subflow, ok := inst.subflows[workItem.SubFlowID]
+			if !ok {
+				return fmt.Errorf("work item for unknown subflow [%d]", workItem.SubFlowID)
+			}
+			taskInsts = subflow.taskInsts
 		}
 
 		workItem.taskInst = taskInsts[workItem.TaskID]
+		if workItem.taskInst == nil {
+			return fmt.Errorf("work item for unknown task [%s]", workItem.TaskID)
+		}
 		inst.workItemQueue.Push(workItem)
 	}
 
@@ -145,8 +163,16 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 ////////////////////////////////////////////////////////////////////////////////////////////////////////
 // Embedded Flow Instance Serialization
 
+// taskRef refers to a task instance of one of the flows of an independent instance
+type taskRef struct {
+	subflowId int
+	taskID    string
+}
+
 type serInstance struct {
 	SubFlowId int                    `json:"subFlowId"`
+	HostFlow  int                    `json:"hostFlowId,omitempty"`
+	HostTask  string                 `json:"hostTask"`
 	Status    model.FlowStatus       `json:"status"`
 	FlowURI   string                 `json:"flowUri"`
 	Attrs     map[string]interface{} `json:"attrs"`
@@ -176,8 +202,15 @@ func (inst *Instance) MarshalJSON() ([]byte, error) {
 		lis = append(lis, linkInst)
 	}
 
+	hostRef := inst.hostRef
+	if host, ok := inst.host.(*TaskInst); ok {
+		hostRef = taskRef{subflowId: host.flowInst.subflowId, taskID: host.taskID}
+	}
+
 	return json.Marshal(&serInstance{
 		SubFlowId: inst.subflowId,
+		HostFlow:  hostRef.subflowId,
+		HostTask:  hostRef.taskID,
 		Status:    inst.status,
 		Attrs:     attrs,
 		FlowURI:   inst.flowURI,
@@ -197,6 +230,7 @@ func (inst *Instance) UnmarshalJSON(d []byte) error {
 	}
 
 	inst.subflowId = ser.SubFlowId
+	inst.hostRef = taskRef{subflowId: ser.HostFlow, taskID: ser.HostTask}
 	inst.status = ser.Status
 	inst.flowURI = ser.FlowURI
 	ser.serOutcome.apply(inst)
-- 
2.43.0


From db57dfcde41f4a8a833638bc87913b9b91226912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 31/93] fix: a task that waited for its subflow is not run
 again when the flow is restarted from it

---
 instance/ind_instance.go | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index ecd6fe7..ca619b8 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -967,24 +967,10 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 			wi, ok := step.(*WorkItem)
 			if ok {
 				if wi.taskInst != nil {
-					// Update the status
-					wi.taskInst.SetStatus(model.TaskStatusReady)
-					// Add item back to queue
-					inst.workItemQueue.Push(step)
-				}
-			}
-		}
-	}
-
-	if initStepId+1 > 0 {
-		// Restart from activity. Read the item from queue
-		step, ok := inst.workItemQueue.Pop()
-		if ok {
-			wi, ok := step.(*WorkItem)
-			if ok {
-				if wi.taskInst != nil {
-					// Update the status
-					wi.taskInst.SetStatus(model.TaskStatusReady)
+					// Update the status, unless the task is to be continued after its subflow has ended
+					if wi.taskInst.status != model.TaskStatusWaiting {
+						wi.taskInst.SetStatus(model.TaskStatusReady)
+					}
 					// Add item back to queue
 					inst.workItemQueue.Push(step)
 				}
-- 
2.43.0


From 2f4644d622b7f41842e9a42d9318b8c2dff90ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 32/93] fix: a restarted instance is prepared for concurrent
 task execution

---
 instance/ind_instance.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index ca619b8..42730ef 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -82,14 +82,22 @@ func NewIndependentInstance(instanceID string, flowURI string, flow *definition.
 	inst.linkInsts = make(map[int]*LinkInst)
 
 	inst.instRecorder = instRecorder
+	inst.initConcurrency()
+
+	return inst, nil
+}
+
+// initConcurrency prepares the instance for the concurrent execution of its tasks, if that is enabled
+func (inst *IndependentInstance) initConcurrency() {
 	if IsConcurrentTaskExcutionEnabled() {
 		inst.Instance.lock = &sync.RWMutex{}
 		inst.Instance.actSchedLock = &sync.Mutex{}
 		inst.Instance.subFlowLock = &sync.Mutex{}
 		inst.concurrentExec = true
+		for _, subflow := range inst.subflows {
+			subflow.lock = &sync.RWMutex{}
+		}
 	}
-
-	return inst, nil
 }
 
 func (inst *IndependentInstance) SetInstanceRecorder(stateRecorder *stateInstanceRecorder) {
@@ -955,6 +963,7 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 	if err != nil {
 		return err
 	}
+	inst.initConcurrency()
 
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
 	inst.changeTracker.FlowCreated(inst)
-- 
2.43.0


From 8693b4101dc6f4e700264bbfb74edf51a28b1c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 33/93] fix: the flow context of a restarted flow has the id of
 the new instance

---
 instance/ind_instance.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 42730ef..3916346 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -967,6 +967,8 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
 	inst.changeTracker.FlowCreated(inst)
+	// The instance may have got another id
+	inst.updateFlowIds()
 	// Set flow status to active
 	inst.SetStatus(model.FlowStatusActive)
 	if initStepId+1 > 0 {
@@ -1048,6 +1050,17 @@ func (inst *IndependentInstance) initSubflows() error {
 	return nil
 }
 
+// updateFlowIds sets the ids in the flow contexts of a restarted instance
+func (inst *IndependentInstance) updateFlowIds() {
+	_ = inst.SetValue(flowCtxPrefix+flowId, inst.ID())
+	for _, subflow := range inst.subflows {
+		_ = subflow.SetValue(flowCtxPrefix+flowId, subflow.ID())
+		if host, ok := subflow.host.(*TaskInst); ok {
+			_ = subflow.SetValue(flowCtxPrefix+parentFlowId, host.flowInst.ID())
+		}
+	}
+}
+
 // initialized tells if the instance is bound to its flow, i.e. if it was not just deserialized
 func (inst *IndependentInstance) initialized() bool {
 	return inst.master != nil
-- 
2.43.0


From 84421790a3026413bba6ad35b6d5b3fadaf7ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 34/93] fix: an instance can be restarted when context logging
 is enabled

---
 action.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index 56397e3..8154ff1 100644
--- a/action.go
+++ b/action.go
@@ -269,7 +269,15 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 			instLogger := logger
 			if log.CtxLoggingEnabled() {
-				instLogger = log.ChildLoggerWithFields(logger, log.FieldString("flowName", inst.Name()), log.FieldString("flowId", instanceID))
+				//the instance is bound to its flow definition only when it is restarted
+				flowDef, _, err := flowsupport.GetDefinition(inst.FlowURI())
+				if err != nil {
+					return err
+				}
+				if flowDef == nil {
+					return errors.New("flow not found for URI: " + inst.FlowURI())
+				}
+				instLogger = log.ChildLoggerWithFields(logger, log.FieldString("flowName", flowDef.Name()), log.FieldString("flowId", instanceID))
 			}
 			inst.SetInstanceRecorder(instance.NewStateInstanceRecorder(stateRecorder, stateRecordingMode, rerun))
 			//Engine should set init step id one step before current restart step
-- 
2.43.0


From cf0809b3b7ee9c4b0fd99602348495d8128aeb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:31 +0000
Subject: [PATCH 35/93] fix: changes of the data of a flow are part of the
 recorded steps

---
 instance/ind_instance.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 3916346..f30deb8 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -72,11 +72,7 @@ func NewIndependentInstance(instanceID string, flowURI string, flow *definition.
 	inst.logger = logger
 
 	inst.status = model.FlowStatusNotStarted
-	if os.Getenv("FLOGO_FLOW_SM_ENDPOINT") != "" {
-		inst.trackingChanges = true
-	}
-	inst.changeTracker = NewInstanceChangeTracker(inst.id, 0)
-	inst.changeTracker.FlowCreated(inst)
+	inst.initChangeTracking(0)
 
 	inst.taskInsts = make(map[string]*TaskInst)
 	inst.linkInsts = make(map[int]*LinkInst)
@@ -87,6 +83,15 @@ func NewIndependentInstance(instanceID string, flowURI string, flow *definition.
 	return inst, nil
 }
 
+// initChangeTracking starts the tracking of the changes of the instance, if that is enabled
+func (inst *IndependentInstance) initChangeTracking(startStepId int) {
+	if chgTrackingEnabled || os.Getenv("FLOGO_FLOW_SM_ENDPOINT") != "" {
+		inst.trackingChanges = true
+	}
+	inst.changeTracker = NewInstanceChangeTracker(inst.id, startStepId)
+	inst.changeTracker.FlowCreated(inst)
+}
+
 // initConcurrency prepares the instance for the concurrent execution of its tasks, if that is enabled
 func (inst *IndependentInstance) initConcurrency() {
 	if IsConcurrentTaskExcutionEnabled() {
@@ -965,8 +970,7 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 	}
 	inst.initConcurrency()
 
-	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
-	inst.changeTracker.FlowCreated(inst)
+	inst.initChangeTracking(initStepId)
 	// The instance may have got another id
 	inst.updateFlowIds()
 	// Set flow status to active
-- 
2.43.0


From acb6dea364a9ba09aa2dcf432ec05308d5c1f436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:20 +0000
Subject: [PATCH 36/93] fix: snapshots contain the work queue and the subflows

---
 instance/ind_instance.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index f30deb8..b4fd2d1 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -1101,6 +1101,15 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 
 	populateBaseSnapshot(inst.Instance, fs.SnapshotBase)
 
+	for e := inst.workItemQueue.List.Front(); e != nil; e = e.Next() {
+		workItem := e.Value.(*WorkItem)
+		fs.WorkQueue = append(fs.WorkQueue, &state.WorkItem{
+			ID:        workItem.ID,
+			SubflowId: workItem.SubFlowID,
+			TaskId:    workItem.TaskID,
+		})
+	}
+
 	if len(inst.subflows) > 0 {
 		fs.Subflows = make([]*state.Subflow, 0, len(inst.subflows))
 		for id, subflow := range inst.subflows {
@@ -1110,6 +1119,7 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 				TaskId:       subflow.host.(*TaskInst).taskID,
 			}
 			populateBaseSnapshot(subflow, sfs.SnapshotBase)
+			fs.Subflows = append(fs.Subflows, &sfs)
 		}
 	}
 	return fs
-- 
2.43.0


From 1388f9d713cdba1691beb83403dd263d045e381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 37/93] fix: a snapshot rebuilt from steps is the state after
 the last of them

---
 state/util.go | 165 +++++++++++++++++++++++++-------------------------
 1 file changed, 81 insertions(+), 84 deletions(-)

diff --git a/state/util.go b/state/util.go
index 6fcce94..c0673aa 100644
--- a/state/util.go
+++ b/state/util.go
@@ -1,6 +1,11 @@
 package state
 
-import "github.com/project-flogo/flow/state/change"
+import (
+	"sort"
+
+	"github.com/project-flogo/flow/model"
+	"github.com/project-flogo/flow/state/change"
+)
 
 type FlowInfo struct {
 	Id                 string                 `json:"id"`
@@ -22,83 +27,82 @@ func StepsToSnapshot(flowId string, steps []*Step) *Snapshot {
 	fs := &Snapshot{Id: flowId, SnapshotBase: &SnapshotBase{}}
 
 	subflows := make(map[int]*Subflow)
-	first := -1
-	queueDone := false
-
-	for i := len(steps) - 1; i >= 0; i-- {
-		step := steps[i]
-		if len(step.FlowChanges) > 0 {
-			for _, flowChange := range step.FlowChanges {
-
-				if flowChange.SubflowId > 0 {
-					subflow, exists := subflows[flowChange.SubflowId]
-					if !exists {
-						subflow = &Subflow{
-							SnapshotBase: &SnapshotBase{},
-							Id:           flowChange.SubflowId,
-							TaskId:       flowChange.TaskId,
-						}
-					}
-					UpdateFlow(subflow.SnapshotBase, flowChange)
-				} else {
-					// update main flow
-					UpdateFlow(fs.SnapshotBase, flowChange)
-				}
+
+	for _, step := range steps {
+
+		for id, flowChange := range step.FlowChanges {
+
+			if id == 0 {
+				// update main flow
+				UpdateFlow(fs.SnapshotBase, flowChange)
+				continue
 			}
-		}
-		if len(step.QueueChanges) > 0 && !queueDone {
-			for id, queueChg := range step.QueueChanges {
-				queueDone = UpdateQueue(fs, id, queueChg, &first)
-				if queueDone {
-					break
-				}
+
+			subflow, exists := subflows[id]
+			if !exists {
+				subflow = &Subflow{SnapshotBase: &SnapshotBase{}, Id: id}
+				subflows[id] = subflow
+			}
+			if flowChange.NewFlow {
+				subflow.TaskId = flowChange.TaskId
+			}
+			UpdateFlow(subflow.SnapshotBase, flowChange)
+			if isFlowDone(subflow.Status) {
+				delete(subflows, id)
 			}
 		}
 
+		for id, queueChg := range step.QueueChanges {
+			UpdateQueue(fs, id, queueChg)
+		}
 	}
 
-	for id, subflow := range subflows {
-		if id != 0 {
-			fs.Subflows = append(fs.Subflows, subflow)
-		}
+	for _, subflow := range subflows {
+		fs.Subflows = append(fs.Subflows, subflow)
 	}
 
+	// the most recent item is at the front of the queue
+	sort.Slice(fs.WorkQueue, func(i, j int) bool {
+		return fs.WorkQueue[i].ID > fs.WorkQueue[j].ID
+	})
+
 	return fs
 }
 
-func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue, first *int) bool {
+func isFlowDone(status int) bool {
+	return status >= int(model.FlowStatusCompleted)
+}
+
+// UpdateQueue applies the change of a work item to the queue of the snapshot
+func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue) {
 
-	if *first == -1 && queueChg.ChgType == change.Delete {
-		*first = id
-	} else {
-		if id == *first {
-			return true
+	for i, item := range fs.WorkQueue {
+		if item.ID == id {
+			fs.WorkQueue = append(fs.WorkQueue[:i], fs.WorkQueue[i+1:]...)
+			break
 		}
 	}
 
-	if queueChg.ChgType == change.Add {
+	if queueChg.ChgType != change.Delete {
 		fs.WorkQueue = append(fs.WorkQueue, &WorkItem{
 			ID:        id,
 			SubflowId: queueChg.SubflowId,
 			TaskId:    queueChg.TaskId,
 		})
 	}
-	return false
 }
 
+// UpdateFlow applies the change of a flow to its snapshot
 func UpdateFlow(s *SnapshotBase, change *change.Flow) {
 
-	if len(change.Attrs) > 0 {
-		if s.Attrs == nil {
-			s.Attrs = change.Attrs
-		} else {
-			for name, value := range change.Attrs {
-				s.Attrs[name] = value
-			}
-		}
+	if len(change.Attrs) > 0 && s.Attrs == nil {
+		s.Attrs = make(map[string]interface{}, len(change.Attrs))
+	}
+	for name, value := range change.Attrs {
+		s.Attrs[name] = value
 	}
 
-	if s.Status == 0 {
+	if change.Status != 0 {
 		s.Status = change.Status
 	}
 
@@ -106,61 +110,54 @@ func UpdateFlow(s *SnapshotBase, change *change.Flow) {
 		s.FlowURI = change.FlowURI
 	}
 
-	if len(change.Tasks) > 0 {
-		for id, taskChg := range change.Tasks {
-			UpdateTasks(s, id, taskChg)
-		}
+	for id, taskChg := range change.Tasks {
+		UpdateTasks(s, id, taskChg)
 	}
-	if len(change.Links) > 0 {
-		for id, linkChg := range change.Links {
-			UpdateLinks(s, id, linkChg)
-		}
+	for id, linkChg := range change.Links {
+		UpdateLinks(s, id, linkChg)
 	}
 }
 
-func UpdateTasks(snapshot *SnapshotBase, taskId string, change *change.Task) {
-
-	var td *Task
+// UpdateTasks applies the change of a task to the snapshot of its flow
+func UpdateTasks(snapshot *SnapshotBase, taskId string, taskChg *change.Task) {
 
-	if snapshot.Tasks != nil {
-		for _, task := range snapshot.Tasks {
-			if task.Id == taskId {
-				td = task
+	for i, task := range snapshot.Tasks {
+		if task.Id == taskId {
+			if taskChg.ChgType == change.Delete {
+				snapshot.Tasks = append(snapshot.Tasks[:i], snapshot.Tasks[i+1:]...)
+			} else {
+				task.Status = taskChg.Status
 			}
+			return
 		}
 	}
 
-	if td == nil {
+	if taskChg.ChgType != change.Delete {
 		snapshot.Tasks = append(snapshot.Tasks, &Task{
 			Id:     taskId,
-			Status: change.Status,
+			Status: taskChg.Status,
 		})
-	} else {
-		if td.Status == 0 {
-			td.Status = change.Status
-		}
 	}
 }
 
-func UpdateLinks(snapshot *SnapshotBase, linkId int, change *change.Link) {
-	var ld *Link
+// UpdateLinks applies the change of a link to the snapshot of its flow
+func UpdateLinks(snapshot *SnapshotBase, linkId int, linkChg *change.Link) {
 
-	if snapshot.Links != nil {
-		for _, link := range snapshot.Links {
-			if link.Id == linkId {
-				ld = link
+	for i, link := range snapshot.Links {
+		if link.Id == linkId {
+			if linkChg.ChgType == change.Delete {
+				snapshot.Links = append(snapshot.Links[:i], snapshot.Links[i+1:]...)
+			} else {
+				link.Status = linkChg.Status
 			}
+			return
 		}
 	}
 
-	if ld == nil {
+	if linkChg.ChgType != change.Delete {
 		snapshot.Links = append(snapshot.Links, &Link{
 			Id:     linkId,
-			Status: change.Status,
+			Status: linkChg.Status,
 		})
-	} else {
-		if ld.Status == 0 {
-			ld.Status = change.Status
-		}
 	}
 }
-- 
2.43.0


From 21c15e1f29305cce0aabb6dd2fda06c3b74dcbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:28 +0000
Subject: [PATCH 38/93] fix: the default values of inputs are recorded as
 values

---
 instance/ind_instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index b4fd2d1..181bf66 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -245,10 +245,10 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 		for name, value := range md.Input {
 			if value != nil {
 				toStart.attrs[name] = value.Value()
-				inst.changeTracker.AttrChange(toStart.subflowId, name, value)
 			} else {
 				toStart.attrs[name] = nil
 			}
+			inst.changeTracker.AttrChange(toStart.subflowId, name, toStart.attrs[name])
 		}
 	} else {
 		if toStart.attrs == nil {
-- 
2.43.0


From b4fa65e3dce4317679c3bebc5e92b717bfdbb854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 39/93] fix: recorded changes tell the subflow they belong to

---
 instance/instance_chg.go | 48 ++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index 6a43bf3..f87eb3a 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -133,11 +133,7 @@ func (sct *SimpleChangeTracker) SetStatus(subflowId int, status model.FlowStatus
 		defer sct.lock.Unlock()
 		sct.lock.Lock()
 	}
-	fc, exists := sct.currentStep.FlowChanges[subflowId]
-	if !exists {
-		fc = &change.Flow{}
-		sct.currentStep.FlowChanges[subflowId] = fc
-	}
+	fc := getFlowChange(sct.currentStep, subflowId)
 
 	fc.Status = int(status)
 }
@@ -147,11 +143,7 @@ func (sct *SimpleChangeTracker) AttrChange(subflowId int, name string, value int
 		defer sct.lock.Unlock()
 		sct.lock.Lock()
 	}
-	fc, exists := sct.currentStep.FlowChanges[subflowId]
-	if !exists {
-		fc = &change.Flow{}
-		sct.currentStep.FlowChanges[subflowId] = fc
-	}
+	fc := getFlowChange(sct.currentStep, subflowId)
 
 	if fc.Attrs == nil {
 		fc.Attrs = make(map[string]interface{})
@@ -232,9 +224,10 @@ func (sct *SimpleChangeTracker) SubflowDone(subflow *Instance) {
 				fc.ReturnData = util.DeepCopyMap(returnData)
 			} else {
 				fc := &change.Flow{
-					NewFlow: false,
-					FlowURI: subflow.flowURI,
-					Status:  int(subflow.status),
+					NewFlow:   false,
+					FlowURI:   subflow.flowURI,
+					SubflowId: subflow.subflowId,
+					Status:    int(subflow.status),
 				}
 				returnData, _ := subflow.GetReturnData()
 				fc.ReturnData = util.DeepCopyMap(returnData)
@@ -250,6 +243,7 @@ func (sct *SimpleChangeTracker) WorkItemAdded(wi *WorkItem) {
 		sct.lock.Lock()
 	}
 	qc := getQueueChange(sct.currentStep, wi.ID)
+	qc.SubflowId = wi.SubFlowID
 	qc.TaskId = wi.TaskID
 }
 
@@ -259,6 +253,7 @@ func (sct *SimpleChangeTracker) WorkItemRemoved(wi *WorkItem) {
 		sct.lock.Lock()
 	}
 	qc := getQueueChange(sct.currentStep, wi.ID)
+	qc.SubflowId = wi.SubFlowID
 	qc.TaskId = wi.TaskID
 	qc.ChgType = change.Delete
 }
@@ -366,17 +361,26 @@ func getQueueChange(step *state.Step, workItemId int) *change.Queue {
 	return wc
 }
 
-func getTaskChange(step *state.Step, subflowId int, taskId string, flowname string) *change.Task {
+func getFlowChange(step *state.Step, subflowId int) *change.Flow {
 
 	fc, exists := step.FlowChanges[subflowId]
 	if !exists {
-		fc = &change.Flow{TaskId: taskId, FlowURI: flowname}
+		fc = &change.Flow{SubflowId: subflowId}
 		step.FlowChanges[subflowId] = fc
-	} else {
+	}
+
+	return fc
+}
+
+func getTaskChange(step *state.Step, subflowId int, taskId string, flowname string) *change.Task {
+
+	fc := getFlowChange(step, subflowId)
+	if subflowId == 0 || !fc.NewFlow {
+		// a new subflow has the task it was started by
 		fc.TaskId = taskId
-		if fc.FlowURI == "" {
-			fc.FlowURI = flowname
-		}
+	}
+	if fc.FlowURI == "" {
+		fc.FlowURI = flowname
 	}
 
 	if fc.Tasks == nil {
@@ -394,11 +398,7 @@ func getTaskChange(step *state.Step, subflowId int, taskId string, flowname stri
 
 func getLinkChange(step *state.Step, subflowId int, linkId int) *change.Link {
 
-	fc, exists := step.FlowChanges[subflowId]
-	if !exists {
-		fc = &change.Flow{}
-		step.FlowChanges[subflowId] = fc
-	}
+	fc := getFlowChange(step, subflowId)
 
 	if fc.Links == nil {
 		fc.Links = make(map[int]*change.Link, 2)
-- 
2.43.0


From a5d18b2eea7852af55e06ffcdb4a7997cde840f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 40/93] fix: the steps record that an error handler replaces
 the tasks of its flow

---
 instance/ind_instance.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 181bf66..6ed12e8 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -710,6 +710,14 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 
 }
 
+// abandonTasks clears the task instances of the flow
+func (inst *IndependentInstance) abandonTasks(flowInst *Instance) {
+	for taskID := range flowInst.taskInsts {
+		inst.changeTracker.TaskRemoved(flowInst.subflowId, taskID)
+	}
+	flowInst.taskInsts = make(map[string]*TaskInst)
+}
+
 // HandleGlobalError handles instance errors
 func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err error) {
 
@@ -729,7 +737,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		// todo: should we clear out the existing workitem queue for items from containerInst?
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
 		//clear existing instances
-		containerInst.taskInsts = make(map[string]*TaskInst)
+		inst.abandonTasks(containerInst)
 
 		taskEntries := flowBehavior.StartErrorHandler(containerInst)
 		err := inst.enterTasks(containerInst, taskEntries)
-- 
2.43.0


From 474795d82e87fee49249b6a065acc40ede94c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 41/93] fix: the state recorded when a subflow fails includes
 the pending continuation of its caller

---
 instance/ind_instance.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 6ed12e8..be7abc2 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -775,9 +775,6 @@ func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 			_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
 		}
 
-		if containerInst != nil && containerInst.master != nil {
-			containerInst.master.RecordState(time.Now().UTC())
-		}
 		// spawned from task instance
 		host, ok := containerInst.host.(*TaskInst)
 
@@ -785,6 +782,10 @@ func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 			host.returnError = err
 			inst.scheduleEval(host)
 		}
+
+		if containerInst != nil && containerInst.master != nil {
+			containerInst.master.RecordState(time.Now().UTC())
+		}
 	} else {
 		inst.returnError = err
 	}
-- 
2.43.0


From 2d11517a241e7b7e2d0bb682f9558d51a5009038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 42/93] fix: the steps of a restarted flow are numbered without
 repetition

---
 instance/ind_instance.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index be7abc2..28b1036 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -979,7 +979,12 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 	}
 	inst.initConcurrency()
 
-	inst.initChangeTracking(initStepId)
+	startStepId := initStepId
+	if startStepId < 0 {
+		// not restarted from a step
+		startStepId = 0
+	}
+	inst.initChangeTracking(startStepId)
 	// The instance may have got another id
 	inst.updateFlowIds()
 	// Set flow status to active
-- 
2.43.0


From 3fdbd295c953732b96a6259cc81d5b01553c1c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 43/93] fix: a failed subflow is no longer listed as a subflow
 of the instance

---
 instance/ind_instance.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 28b1036..f0dc30d 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -637,17 +637,22 @@ func (inst *IndependentInstance) completeFlow(containerInst *Instance) {
 		//}
 
 		// flow has completed so remove it
-		if inst.subFlowLock != nil {
-			inst.subFlowLock.Lock()
-			defer inst.subFlowLock.Unlock()
-		}
-		delete(inst.subflows, containerInst.subflowId)
+		inst.removeSubflow(containerInst)
 	} else {
 		containerInst.master.GetChanges().FlowDone(inst)
 	}
 
 }
 
+// removeSubflow removes a subflow that has ended
+func (inst *IndependentInstance) removeSubflow(subflow *Instance) {
+	if inst.subFlowLock != nil {
+		inst.subFlowLock.Lock()
+		defer inst.subFlowLock.Unlock()
+	}
+	delete(inst.subflows, subflow.subflowId)
+}
+
 func (inst *IndependentInstance) propagateSkip(taskEntries []*model.TaskEntry, activeInst *Instance) bool {
 
 	if len(taskEntries) == 0 {
@@ -783,6 +788,9 @@ func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 			inst.scheduleEval(host)
 		}
 
+		// flow has failed so remove it
+		inst.removeSubflow(containerInst)
+
 		if containerInst != nil && containerInst.master != nil {
 			containerInst.master.RecordState(time.Now().UTC())
 		}
-- 
2.43.0


From 2dcd8e514cf509fc5f068c1672a30d62cd1c4882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 44/93] fix: no changes of a subflow are recorded after its end

---
 instance/instance.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/instance/instance.go b/instance/instance.go
index 85bf59f..0a3acde 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -137,12 +137,18 @@ func (inst *Instance) releaseTask(task *definition.Task) {
 		defer inst.lock.Unlock()
 	}
 	delete(inst.taskInsts, task.ID())
-	inst.master.changeTracker.TaskRemoved(inst.subflowId, task.ID())
+	// a subflow that has ended is gone altogether and may have been recorded already
+	recorded := inst.subflowId > 0 && inst.status >= model.FlowStatusCompleted
+	if !recorded {
+		inst.master.changeTracker.TaskRemoved(inst.subflowId, task.ID())
+	}
 	links := task.FromLinks()
 
 	for _, link := range links {
 		delete(inst.linkInsts, link.ID())
-		inst.master.changeTracker.LinkRemoved(inst.subflowId, link.ID())
+		if !recorded {
+			inst.master.changeTracker.LinkRemoved(inst.subflowId, link.ID())
+		}
 		//inst.master.ChangeTracker.trackLinkData(inst.subFlowId, &LinkInstChange{ChgType: CtDel, ID: link.ID()})
 	}
 }
-- 
2.43.0


From 1f02eacad62707cc295971c8b3a94a195107a0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 45/93] fix: a failing subflow does not need a state recorder

---
 instance/recorder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instance/recorder.go b/instance/recorder.go
index 7e21f27..5ef57dc 100644
--- a/instance/recorder.go
+++ b/instance/recorder.go
@@ -20,6 +20,11 @@ func NewStateInstanceRecorder(recorder state.Recorder, mod state.RecordingMode,
 }
 
 func (inst *IndependentInstance) RecordState(strtTime time.Time) error {
+	if inst.instRecorder == nil || inst.instRecorder.externalRecorder == nil {
+		// there is nothing to record to
+		return nil
+	}
+
 	if state.RecordSnapshot(inst.instRecorder.mod) {
 		err := inst.instRecorder.externalRecorder.RecordSnapshot(inst.Snapshot())
 		if err != nil {
-- 
2.43.0


From ac78ec28976024bb55031cb33e66f26ea9d15382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 46/93] fix: publish the inputs of a started flow and the
 outputs it returned

The event of a flow that starts lacked the inputs that are named like an
output. The event of a completed flow lacked what was returned explicitly
under a name that is no attribute, and had the value of the attribute
instead of the returned one otherwise.
---
 instance/flowevents.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/instance/flowevents.go b/instance/flowevents.go
index 43b2aaa..161125f 100644
--- a/instance/flowevents.go
+++ b/instance/flowevents.go
@@ -90,18 +90,20 @@ func postFlowEvent(inst *Instance) {
 		fe.output = make(map[string]interface{})
 
 		if fe.status != event.CREATED {
-			attrs := inst.currentAttrs()
-			outData, _ := inst.GetReturnData()
-			if attrs != nil && len(attrs) > 0 {
-				for name, attVal := range attrs {
-					if outData != nil && outData[name] != nil {
-						if fe.status == event.COMPLETED {
-							fe.output[name] = attVal
-						}
-						// Since same attribute map is used for input and output, filter output attributes
-						continue
-					}
-					fe.input[name] = attVal
+			var outData map[string]interface{}
+			if fe.status != event.STARTED {
+				outData, _ = inst.GetReturnData()
+			}
+			for name, attVal := range inst.currentAttrs() {
+				if outData != nil && outData[name] != nil {
+					// Since same attribute map is used for input and output, filter output attributes
+					continue
+				}
+				fe.input[name] = attVal
+			}
+			if fe.status == event.COMPLETED {
+				for name, value := range outData {
+					fe.output[name] = value
 				}
 			}
 		}
-- 
2.43.0


From 51907e1bcbe446835a8d002a1147f96cf477d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 47/93] fix: publish failed flows and tasks with their error

The event was posted before the error was set, so that it had none.
---
 instance/ind_instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index f0dc30d..c44e24d 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -687,6 +687,7 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 	if taskInst.traceContext != nil {
 		_ = trace.GetTracer().FinishTrace(taskInst.traceContext, err)
 	}
+	taskInst.returnError = err
 	// Set task status to failed for subflow activity
 	taskInst.SetStatus(model.TaskStatusFailed)
 
@@ -771,6 +772,7 @@ func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 
 	// Print error message if no error handler
 	inst.logger.Error(err)
+	containerInst.returnError = err
 	containerInst.SetStatus(model.FlowStatusFailed)
 
 	if containerInst != inst.Instance {
@@ -794,8 +796,6 @@ func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 		if containerInst != nil && containerInst.master != nil {
 			containerInst.master.RecordState(time.Now().UTC())
 		}
-	} else {
-		inst.returnError = err
 	}
 }
 
-- 
2.43.0


From 501e781926172c4a1e202244a40a84d34fa4590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 48/93] fix: publish the calling flow as the parent of a
 subflow

The events and spans of a subflow named the main flow as its parent, also
if another subflow called it, so that the published host task is not one of
the published parent.
---
 instance/flowevents.go   | 6 ++----
 instance/ind_instance.go | 6 +++---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/instance/flowevents.go b/instance/flowevents.go
index 161125f..609935f 100644
--- a/instance/flowevents.go
+++ b/instance/flowevents.go
@@ -74,13 +74,11 @@ func postFlowEvent(inst *Instance) {
 		fe.time = time.Now()
 		fe.name = inst.Name()
 		fe.id = inst.ID()
-		if inst.master != nil && inst.master.id != inst.ID() {
-			fe.parentName = inst.master.Name()
-			fe.parentId = inst.master.ID()
-		}
 
 		taskInst, ok := inst.host.(*TaskInst)
 		if ok {
+			fe.parentName = taskInst.flowInst.Name()
+			fe.parentId = taskInst.flowInst.ID()
 			fe.hostTask = event.HostTask{TaskName: taskInst.Name(), TaskInstanceId: taskInst.InstanceId()}
 		}
 
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index c44e24d..78f0e99 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -1103,9 +1103,9 @@ func (inst *Instance) SpanConfig() trace.Config {
 	config.Tags = make(map[string]interface{})
 	config.Tags["flow_id"] = inst.ID()
 	config.Tags["flow_name"] = inst.Name()
-	if inst.master != nil && inst.master.id != inst.ID() {
-		config.Tags["parent_flow_id"] = inst.master.ID()
-		config.Tags["parent_flow_name"] = inst.master.Name()
+	if host, ok := inst.host.(*TaskInst); ok {
+		config.Tags["parent_flow_id"] = host.flowInst.ID()
+		config.Tags["parent_flow_name"] = host.flowInst.Name()
 	}
 	return config
 }
-- 
2.43.0


From cae51b6c7fd4b1de786054e499614ddbda1cd9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 49/93] fix: end the subflows of a flow that ends or abandons
 its tasks

When a flow is stopped by the step limit, fails, returns or switches to its
error handler while subflows that its tasks wait for are still active, those
were left behind: they were never published to have ended, their spans
remained open, and concurrently executed tasks even started new subflows on
behalf of an abandoned task. They are cancelled now. The snapshot of an
instance takes the lock of the subflows, since subflows are added and removed
by concurrently executed tasks.
---
 instance/ind_instance.go | 61 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 6 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 78f0e99..6255a0b 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"sort"
 	"strconv"
 	"sync"
 	"time"
@@ -187,10 +188,53 @@ func (inst *IndependentInstance) startEmbedded(embedded *Instance, startAttrs ma
 	inst.lockScheduling()
 	defer inst.unlockScheduling()
 
+	if host, ok := embedded.host.(*TaskInst); ok && !host.isCurrent() {
+		// the flow of the task has ended or abandoned it in the meantime
+		inst.cancelSubflow(embedded)
+		return errors.New("the flow of the embedded instance is not active")
+	}
+
 	inst.startInstance(embedded, startAttrs)
 	return nil
 }
 
+// cancelSubflows cancels the subflows that were started by tasks of the flow, which ends or abandons its tasks
+func (inst *IndependentInstance) cancelSubflows(flowInst *Instance) {
+	for _, subflow := range inst.getSubflows() {
+		if host, ok := subflow.host.(*TaskInst); ok && host.flowInst == flowInst {
+			inst.cancelSubflow(subflow)
+		}
+	}
+}
+
+// cancelSubflow cancels the subflow and the subflows of its own
+func (inst *IndependentInstance) cancelSubflow(subflow *Instance) {
+	inst.cancelSubflows(subflow)
+
+	if subflow.status == model.FlowStatusActive {
+		subflow.SetStatus(model.FlowStatusCancelled)
+	}
+	if inst.removeSubflow(subflow) && subflow.tracingCtx != nil {
+		_ = trace.GetTracer().FinishTrace(subflow.tracingCtx, errors.New("flow cancelled"))
+	}
+}
+
+// getSubflows gets the subflows in the order of their creation
+func (inst *IndependentInstance) getSubflows() []*Instance {
+	if inst.subFlowLock != nil {
+		inst.subFlowLock.Lock()
+		defer inst.subFlowLock.Unlock()
+	}
+	subflows := make([]*Instance, 0, len(inst.subflows))
+	for _, subflow := range inst.subflows {
+		subflows = append(subflows, subflow)
+	}
+	sort.Slice(subflows, func(i, j int) bool {
+		return subflows[i].subflowId < subflows[j].subflowId
+	})
+	return subflows
+}
+
 func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map[string]interface{}) bool {
 
 	//Set the flow Name and Flow Id for the current flow.
@@ -599,6 +643,7 @@ func (inst *IndependentInstance) completeFlow(containerInst *Instance) {
 
 	flowBehavior := inst.flowModel.GetFlowBehavior()
 	flowBehavior.Done(containerInst)
+	inst.cancelSubflows(containerInst)
 	containerInst.SetStatus(model.FlowStatusCompleted)
 
 	if containerInst != inst.Instance {
@@ -644,13 +689,15 @@ func (inst *IndependentInstance) completeFlow(containerInst *Instance) {
 
 }
 
-// removeSubflow removes a subflow that has ended
-func (inst *IndependentInstance) removeSubflow(subflow *Instance) {
+// removeSubflow removes a subflow that has ended, unless it was removed already
+func (inst *IndependentInstance) removeSubflow(subflow *Instance) bool {
 	if inst.subFlowLock != nil {
 		inst.subFlowLock.Lock()
 		defer inst.subFlowLock.Unlock()
 	}
+	_, exists := inst.subflows[subflow.subflowId]
 	delete(inst.subflows, subflow.subflowId)
+	return exists
 }
 
 func (inst *IndependentInstance) propagateSkip(taskEntries []*model.TaskEntry, activeInst *Instance) bool {
@@ -718,6 +765,7 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 
 // abandonTasks clears the task instances of the flow
 func (inst *IndependentInstance) abandonTasks(flowInst *Instance) {
+	inst.cancelSubflows(flowInst)
 	for taskID := range flowInst.taskInsts {
 		inst.changeTracker.TaskRemoved(flowInst.subflowId, taskID)
 	}
@@ -772,6 +820,7 @@ func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 
 	// Print error message if no error handler
 	inst.logger.Error(err)
+	inst.cancelSubflows(containerInst)
 	containerInst.returnError = err
 	containerInst.SetStatus(model.FlowStatusFailed)
 
@@ -1132,12 +1181,12 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 		})
 	}
 
-	if len(inst.subflows) > 0 {
-		fs.Subflows = make([]*state.Subflow, 0, len(inst.subflows))
-		for id, subflow := range inst.subflows {
+	if subflows := inst.getSubflows(); len(subflows) > 0 {
+		fs.Subflows = make([]*state.Subflow, 0, len(subflows))
+		for _, subflow := range subflows {
 			sfs := state.Subflow{
 				SnapshotBase: &state.SnapshotBase{},
-				Id:           id,
+				Id:           subflow.subflowId,
 				TaskId:       subflow.host.(*TaskInst).taskID,
 			}
 			populateBaseSnapshot(subflow, sfs.SnapshotBase)
-- 
2.43.0


From d44f7bbe9d19963f37dc34d1af1aa15cc88ba1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 50/93] fix: a late failure of an abandoned activity does not
 replace the recorded error

---
 instance/taskinst.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index c93d1a5..1c6d2ea 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -384,12 +384,7 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 				setActivityExecutionStatus(ti, support.Fail)
 				setActivityExecutionMessage(ti, evalErr.Error())
 
-				errObj := ti.getErrorObject(evalErr)
-
-				if !ti.flowInst.isHandlingError {
-					_ = ti.flowInst.SetValue("_E", errObj)
-				}
-				_ = ti.flowInst.SetValue("_E."+ti.Task().ID(), errObj)
+				ti.recordError(evalErr)
 
 				applyAssertionInterceptor(ti, support.AssertionException)
 				return false, evalErr
@@ -559,6 +554,22 @@ func (ti *TaskInst) GetSetting(name string) (value interface{}, exists bool) {
 	return value, exists
 }
 
+// recordError records the error of an activity in the flow, unless the flow has ended or abandoned the task meanwhile
+func (ti *TaskInst) recordError(err error) {
+	master := ti.flowInst.master
+	master.lockScheduling()
+	defer master.unlockScheduling()
+
+	if !ti.isCurrent() {
+		return
+	}
+	errObj := ti.getErrorObject(err)
+	if !ti.flowInst.isHandlingError {
+		_ = ti.flowInst.SetValue("_E", errObj)
+	}
+	_ = ti.flowInst.SetValue("_E."+ti.Task().ID(), errObj)
+}
+
 func (ti *TaskInst) appendErrorData(err error) {
 	//For global handle only
 	errObj := ti.getErrorObject(err)
-- 
2.43.0


From 5548c85b8f87119a6e659a2381a7bd2cd6fd615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 51/93] fix: collect the coverage of an interceptor that comes
 without one

---
 support/interceptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/support/interceptor.go b/support/interceptor.go
index c8dddb6..cc42640 100644
--- a/support/interceptor.go
+++ b/support/interceptor.go
@@ -38,6 +38,10 @@ type Interceptor struct {
 // Init initializes the FlowInterceptor, usually called after deserialization
 func (pi *Interceptor) Init() {
 
+	if pi.Coverage == nil {
+		pi.Coverage = &Coverage{}
+	}
+
 	numAttrs := len(pi.TaskInterceptors)
 	if numAttrs > 0 {
 
-- 
2.43.0


From dbc730ae81385dc21f1fe9fb76fde50d14471abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 52/93] fix: override inputs and skip by the interceptor id
 that names flow and task

---
 instance/util.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/instance/util.go b/instance/util.go
index 2c81005..cdeb19a 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -89,12 +89,17 @@ func applyInputMapper(taskInst *TaskInst) error {
 func applyInputInterceptor(taskInst *TaskInst) bool {
 
 	master := taskInst.flowInst.master
+	eval := true
 
 	if master.interceptor != nil {
 
-		// check if this task as an interceptor
-		taskInterceptor := master.interceptor.GetTaskInterceptor(taskInst.task.ID())
-		if taskInterceptor != nil {
+		// check if this task as an interceptor, the one that names the flow too is the more specific one
+		taskID := taskInst.task.ID()
+		for _, id := range []string{taskID, taskInst.flowInst.Name() + "-" + taskID} {
+			taskInterceptor := master.interceptor.GetTaskInterceptor(id)
+			if taskInterceptor == nil {
+				continue
+			}
 
 			taskInst.logger.Debug("Applying Interceptor - Input")
 
@@ -123,11 +128,13 @@ func applyInputInterceptor(taskInst *TaskInst) bool {
 			}
 
 			// check if we should not evaluate the task
-			return !taskInterceptor.Skip
+			if taskInterceptor.Skip {
+				eval = false
+			}
 		}
 	}
 
-	return true
+	return eval
 }
 
 func applyAssertionInterceptor(taskInst *TaskInst, assertType int) error {
-- 
2.43.0


From 611126c947042a4042b1662c540bb433c3bd69a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 53/93] fix: an assertion whose expression panics fails, not
 the task or the process

---
 action.go        | 13 ++++++++++++-
 instance/util.go | 13 ++++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/action.go b/action.go
index 8154ff1..dfbd6e7 100644
--- a/action.go
+++ b/action.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/project-flogo/core/action"
 	"github.com/project-flogo/core/app/resource"
+	"github.com/project-flogo/core/data"
 	"github.com/project-flogo/core/data/coerce"
 	"github.com/project-flogo/core/data/expression"
 	"github.com/project-flogo/core/data/mapper"
@@ -472,7 +473,7 @@ func (fa *FlowAction) applyAssertionInterceptor(inst *instance.IndependentInstan
 					interceptor.Assertions[id].Message = "Failed to validate expression"
 					continue
 				}
-				result, err := expr.Eval(inst.Instance)
+				result, err := evalAssertion(expr, inst.Instance)
 				if err != nil {
 					interceptor.Assertions[id].Result = flowsupport.Fail
 					interceptor.Assertions[id].Message = "Failed to evaluate expression"
@@ -503,3 +504,13 @@ func (fa *FlowAction) applyAssertionInterceptor(inst *instance.IndependentInstan
 	return hasFlowExceptionAssertion
 
 }
+
+// evalAssertion evaluates the expression of an assertion
+func evalAssertion(expr expression.Expr, scope data.Scope) (result interface{}, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("unhandled Error evaluating assertion: %v", r)
+		}
+	}()
+	return expr.Eval(scope)
+}
diff --git a/instance/util.go b/instance/util.go
index cdeb19a..8fa5dd2 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -189,13 +189,20 @@ func applyAssertionInterceptor(taskInst *TaskInst, assertType int) error {
 	return nil
 }
 
-func applyPrimitiveAssertion(taskInst *TaskInst, ef expression.Factory, assertion *support.Assertion) (bool, string, ast.ExprEvalData) {
+func applyPrimitiveAssertion(taskInst *TaskInst, ef expression.Factory, assertion *support.Assertion) (result bool, message string, evalData ast.ExprEvalData) {
+
+	defer func() {
+		if r := recover(); r != nil {
+			taskInst.logger.Errorf("unhandled Error evaluating assertion '%s': %v", assertion.Name, r)
+			result, message, evalData = false, "Failed to evaluate expression", ast.ExprEvalData{}
+		}
+	}()
 
 	expr, _ := ef.NewExpr(fmt.Sprintf("%v", assertion.Expression))
 	if expr == nil {
 		return false, "Failed to validate expression", ast.ExprEvalData{}
 	}
-	result, err := expr.Eval(taskInst.flowInst)
+	value, err := expr.Eval(taskInst.flowInst)
 	if err != nil {
 		taskInst.logger.Error(err)
 		return false, "Failed to evaluate expression", ast.ExprEvalData{}
@@ -207,7 +214,7 @@ func applyPrimitiveAssertion(taskInst *TaskInst, ef expression.Factory, assertio
 		resultData = exp.Detail()
 	}
 
-	res, _ := coerce.ToBool(result)
+	res, _ := coerce.ToBool(value)
 
 	if res {
 		return res, "Comparison success", resultData
-- 
2.43.0


From e737ced32d6e87421f61b7061f0fb336bd35fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 54/93] fix: note the failure of activities that panic or whose
 subflow fails in their interceptor

---
 instance/taskinst.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 1c6d2ea..b53e4c1 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -306,6 +306,7 @@ func (ti *TaskInst) HasActivity() bool {
 func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 	startTime := time.Now()
 	actCfg := ti.task.ActivityConfig()
+	executing := false
 	defer func() {
 		ti.logger.Debugf("Activity [%s] for instance [%s] completed in %s", ti.Name(), ti.flowInst.ID(), time.Since(startTime).String())
 
@@ -321,6 +322,9 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 			if evalErr == nil {
 				evalErr = NewActivityEvalError(ti.task.Name(), "unhandled", fmt.Sprintf("%v", r))
 				done = false
+				if executing {
+					ti.executionFailed(evalErr)
+				}
 			}
 		}
 		if evalErr != nil {
@@ -374,19 +378,16 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 		// If output interceptor is there then the activity should be mocked and activity evaluation should be skipped.
 		// In the applyOutputInterceptor step the mock data will be applied to the activity
 		if !hasOutputInterceptor(ti) {
+			executing = true
 			done, evalErr = actCfg.Activity.Eval(ctx)
+			executing = false
 
 			if evalErr != nil {
 				e, ok := evalErr.(*activity.Error)
 				if ok {
 					e.SetActivityName(ti.task.Name())
 				}
-				setActivityExecutionStatus(ti, support.Fail)
-				setActivityExecutionMessage(ti, evalErr.Error())
-
-				ti.recordError(evalErr)
-
-				applyAssertionInterceptor(ti, support.AssertionException)
+				ti.executionFailed(evalErr)
 				return false, evalErr
 			} else {
 				setActivityExecutionStatus(ti, support.Pass)
@@ -466,6 +467,7 @@ func (ti *TaskInst) applyOutputMapper() error {
 func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 
 	act := ti.task.ActivityConfig().Activity
+	executing := false
 
 	defer func() {
 		if r := recover(); r != nil {
@@ -478,6 +480,9 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 			if evalErr == nil {
 				evalErr = NewActivityEvalError(ti.task.Name(), "unhandled", fmt.Sprintf("%v", r))
 				done = false
+				if executing {
+					ti.executionFailed(evalErr)
+				}
 			}
 		}
 		if evalErr != nil {
@@ -489,7 +494,9 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 	done = true
 
 	if ok {
+		executing = true
 		done, evalErr = aa.PostEval(ti, nil)
+		executing = false
 
 		if evalErr != nil {
 			e, ok := evalErr.(*activity.Error)
@@ -497,10 +504,12 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 				e.SetActivityName(ti.task.Name())
 			}
 
+			ti.executionFailed(evalErr)
 			return false, evalErr
 		}
 	}
 	if ti.returnError != nil {
+		ti.executionFailed(ti.returnError)
 		return false, ti.returnError
 	}
 
@@ -554,6 +563,16 @@ func (ti *TaskInst) GetSetting(name string) (value interface{}, exists bool) {
 	return value, exists
 }
 
+// executionFailed notes that the execution of the activity has failed with the given error
+func (ti *TaskInst) executionFailed(err error) {
+	setActivityExecutionStatus(ti, support.Fail)
+	setActivityExecutionMessage(ti, err.Error())
+
+	ti.recordError(err)
+
+	_ = applyAssertionInterceptor(ti, support.AssertionException)
+}
+
 // recordError records the error of an activity in the flow, unless the flow has ended or abandoned the task meanwhile
 func (ti *TaskInst) recordError(err error) {
 	master := ti.flowInst.master
-- 
2.43.0


From 0d9f51fb4b382cf240c6d71a201b6b5d7f0cd14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 55/93] fix: take the coverage of a task from the flow it
 belongs to

---
 instance/ind_instance.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 6255a0b..781b4cb 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -900,8 +900,8 @@ func (inst *IndependentInstance) addActivityToCoverage(taskInst *TaskInst, err e
 	if inst.GetInterceptor().CollectIO {
 		outputs := taskInst.outputs
 		if outputs == nil {
-			if inst.returnData != nil {
-				outputs = inst.returnData
+			if taskInst.flowInst.returnData != nil {
+				outputs = taskInst.flowInst.returnData
 			}
 		}
 		coverage = flowsupport.ActivityCoverage{
@@ -912,13 +912,13 @@ func (inst *IndependentInstance) addActivityToCoverage(taskInst *TaskInst, err e
 			Outputs:      outputs,
 			Error:        errorObj,
 			FlowName:     taskInst.flowInst.Name(),
-			IsMainFlow:   !inst.isHandlingError,
+			IsMainFlow:   !taskInst.flowInst.isHandlingError,
 		}
 	} else {
 		coverage = flowsupport.ActivityCoverage{
 			ActivityName: taskInst.taskID,
 			FlowName:     taskInst.flowInst.Name(),
-			IsMainFlow:   !inst.isHandlingError,
+			IsMainFlow:   !taskInst.flowInst.isHandlingError,
 		}
 	}
 
-- 
2.43.0


From af4a5e4607bc1b08c1d36964b4a426bc07a0b086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 56/93] fix: a mocked error without a text as its message, and
 named as every other error

---
 instance/util.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/instance/util.go b/instance/util.go
index 8fa5dd2..4bcdab8 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -276,13 +276,16 @@ func applyOutputInterceptor(taskInst *TaskInst) error {
 				}
 			}
 			if taskInterceptor.Type == support.MockException {
-				message := taskInterceptor.Outputs["message"].(string)
+				message, err := coerce.ToString(taskInterceptor.Outputs["message"])
+				if err != nil {
+					return err
+				}
 				data := taskInterceptor.Outputs["data"]
 				if data == nil {
 					data = struct{}{}
 				}
 				e := activity.NewError(message, "", data)
-				e.SetActivityName(taskInst.id)
+				e.SetActivityName(taskInst.Name())
 				return e
 			}
 
-- 
2.43.0


From df91d687d7cbad818d87cf14ce19c0571fad1128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 57/93] fix: intercept subflow tasks whose flow is not
 available

---
 instance/util.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/instance/util.go b/instance/util.go
index 4bcdab8..3656102 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -105,7 +105,10 @@ func applyInputInterceptor(taskInst *TaskInst) bool {
 
 			if len(taskInterceptor.Inputs) > 0 {
 				// override input attributes
-				mdInputs := taskInst.task.ActivityConfig().Activity.Metadata().Input
+				var mdInputs map[string]data.TypedValue
+				if md := taskInst.task.ActivityConfig().Activity.Metadata(); md != nil && md.IOMetadata != nil {
+					mdInputs = md.Input
+				}
 				var err error
 				for name, value := range taskInterceptor.Inputs {
 
@@ -252,7 +255,10 @@ func applyOutputInterceptor(taskInst *TaskInst) error {
 		if taskInterceptor != nil && len(taskInterceptor.Outputs) > 0 {
 
 			if taskInterceptor.Type == support.MockActivity {
-				mdOutput := taskInst.task.ActivityConfig().Activity.Metadata().Output
+				var mdOutput map[string]data.TypedValue
+				if md := taskInst.task.ActivityConfig().Activity.Metadata(); md != nil && md.IOMetadata != nil {
+					mdOutput = md.Output
+				}
 				var err error
 
 				// override output attributes
-- 
2.43.0


From b9e3b62d7fb1876c1558a9a3059e51b7d5340056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 58/93] fix: finish the traces of tasks that their flow
 abandons

---
 instance/ind_instance.go | 29 ++++++++++++-----------------
 instance/instance.go     | 20 ++++++++++++++++++++
 instance/taskinst.go     | 14 ++++++++++++++
 3 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 781b4cb..35b17e1 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -205,6 +205,7 @@ func (inst *IndependentInstance) cancelSubflows(flowInst *Instance) {
 			inst.cancelSubflow(subflow)
 		}
 	}
+	flowInst.finishWaitingTraces()
 }
 
 // cancelSubflow cancels the subflow and the subflows of its own
@@ -499,9 +500,7 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 
 			err := fmt.Errorf("unhandled Error executing task '%s' : %v", taskInst.task.ID(), r)
 			inst.logger.Error(err)
-			if taskInst.traceContext != nil {
-				_ = trace.GetTracer().FinishTrace(taskInst.traceContext, err)
-			}
+			taskInst.finishTrace(err)
 
 			// todo: useful for debugging
 			//logger.Debugf("StackTrace: %s", debug.Stack())
@@ -521,6 +520,7 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 	inst.unlockScheduling()
 	if !current {
 		// the flow of the task has ended or abandoned it, so there is nothing left to do
+		taskInst.finishTrace(errAbandoned)
 		return
 	}
 
@@ -540,6 +540,10 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 
 	if !taskInst.isCurrent() {
 		// the flow of the task has ended or abandoned it in the meantime
+		if err == nil && evalResult == model.EvalWait {
+			err = errAbandoned
+		}
+		taskInst.finishTrace(err)
 		return
 	}
 
@@ -560,18 +564,13 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 		taskInst.SetStatus(model.TaskStatusWaiting)
 	case model.EvalFail:
 		taskInst.SetStatus(model.TaskStatusFailed)
-		if taskInst.traceContext != nil {
-			_ = trace.GetTracer().FinishTrace(taskInst.traceContext, taskInst.returnError)
-		}
+		taskInst.finishTrace(taskInst.returnError)
 	case model.EvalRepeat:
 		taskInst.UpdateTaskToTracker()
-		if taskInst.traceContext != nil {
-			// Finish previous span
-			_ = trace.GetTracer().FinishTrace(taskInst.traceContext, nil)
+		// Finish previous span
+		if taskInst.finishTrace(nil) {
 			taskInst.counter++
 			taskInst.id = taskInst.taskID + "-" + strconv.Itoa(taskInst.counter)
-			// Reset span
-			taskInst.traceContext = nil
 		}
 		//task needs to iterate or retry
 		inst.scheduleEval(taskInst)
@@ -596,9 +595,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 		}
 	} else {
 		notifyFlow, taskEntries, err = taskBehavior.Done(taskInst)
-		if taskInst.traceContext != nil {
-			_ = trace.GetTracer().FinishTrace(taskInst.traceContext, nil)
-		}
+		taskInst.finishTrace(nil)
 		inst.addActivityToCoverage(taskInst, nil)
 	}
 
@@ -731,9 +728,7 @@ func (inst *IndependentInstance) propagateSkip(taskEntries []*model.TaskEntry, a
 // handleTaskError handles the completion of a task in the Flow Instance
 func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior, taskInst *TaskInst, err error) {
 
-	if taskInst.traceContext != nil {
-		_ = trace.GetTracer().FinishTrace(taskInst.traceContext, err)
-	}
+	taskInst.finishTrace(err)
 	taskInst.returnError = err
 	// Set task status to failed for subflow activity
 	taskInst.SetStatus(model.TaskStatusFailed)
diff --git a/instance/instance.go b/instance/instance.go
index 0a3acde..c5ac562 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -153,6 +153,26 @@ func (inst *Instance) releaseTask(task *definition.Task) {
 	}
 }
 
+// finishWaitingTraces finishes the traces of the tasks that wait and will not be continued
+func (inst *Instance) finishWaitingTraces() {
+	if !trace.Enabled() {
+		return
+	}
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	for _, taskInst := range inst.taskInsts {
+		// if the task is just being continued, its trace is finished as soon as that ends
+		if taskInst.execLock.TryLock() {
+			if taskInst.status == model.TaskStatusWaiting {
+				taskInst.finishTrace(errAbandoned)
+			}
+			taskInst.execLock.Unlock()
+		}
+	}
+}
+
 // linksReleased tells if the task has incoming links and none of them has any link data (left)
 func (inst *Instance) linksReleased(task *definition.Task) bool {
 	if inst.lock != nil {
diff --git a/instance/taskinst.go b/instance/taskinst.go
index b53e4c1..624d500 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -1,6 +1,7 @@
 package instance
 
 import (
+	"errors"
 	"fmt"
 	"runtime/debug"
 	"sync"
@@ -52,6 +53,9 @@ func initTaskInst(taskInst *TaskInst, flowInst *Instance, task *definition.Task)
 	}
 }
 
+// errAbandoned is reported for tasks that are not continued because their flow has ended or abandoned them
+var errAbandoned = errors.New("task abandoned")
+
 type TaskInst struct {
 	flowInst *Instance
 	task     *definition.Task
@@ -151,6 +155,16 @@ func (ti *TaskInst) GetTracingContext() trace.TracingContext {
 	return ti.traceContext
 }
 
+// finishTrace finishes the current trace of the task, if there is one
+func (ti *TaskInst) finishTrace(err error) bool {
+	if ti.traceContext == nil {
+		return false
+	}
+	_ = trace.GetTracer().FinishTrace(ti.traceContext, err)
+	ti.traceContext = nil
+	return true
+}
+
 func (ti *TaskInst) GetSharedTempData() map[string]interface{} {
 	//todo implement
 	return nil
-- 
2.43.0


From 34002d9c6dc87c152ff1f1c1404a4def58217eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 59/93] fix: a flow runs although its trace cannot be started

---
 instance/ind_instance.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 35b17e1..b4e396d 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -134,8 +134,12 @@ func (inst *IndependentInstance) newEmbeddedInstance(taskInst *TaskInst, flowURI
 	}
 
 	if trace.Enabled() {
-		tc, _ := trace.GetTracer().StartTrace(embeddedInst.SpanConfig(), taskInst.traceContext) //TODO handle error
-		embeddedInst.tracingCtx = tc
+		tc, err := trace.GetTracer().StartTrace(embeddedInst.SpanConfig(), taskInst.traceContext)
+		if err != nil {
+			inst.logger.Warnf("Unable to start the trace of flow [%s]: %v", flow.Name(), err)
+		} else {
+			embeddedInst.tracingCtx = tc
+		}
 	}
 
 	if inst.subflows == nil {
@@ -245,7 +249,9 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 	_ = toStart.SetValue(flowCtxPrefix+appVersion, flowsupport.GetAppVerison())
 
 	// If tracing is enabled, inject traceId and spanId in flow context
-	if trace.Enabled() {
+	// (the tracer may have failed to start the trace)
+	traced := trace.Enabled() && toStart.tracingCtx != nil
+	if traced {
 		_ = toStart.SetValue(flowCtxPrefix+traceId, toStart.tracingCtx.TraceID())
 		_ = toStart.SetValue(flowCtxPrefix+spanId, toStart.tracingCtx.SpanID())
 	} else {
@@ -256,7 +262,7 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 	if inst.logger.DebugEnabled() {
 		inst.logger.Debugf("Flow Name: %s", toStart.Name())
 		inst.logger.Debugf("Flow Id: %s", toStart.ID())
-		if trace.Enabled() {
+		if traced {
 			inst.logger.Debugf("Trace Id: %s", toStart.tracingCtx.TraceID())
 			inst.logger.Debugf("Span Id: %s", toStart.tracingCtx.SpanID())
 		}
-- 
2.43.0


From e81a16be9963b2a16ce1e955672d8a66b7ad3705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:09 +0000
Subject: [PATCH 60/93] fix: a compressed flow file is not recognised, and an
 empty one panics

---
 support/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/manager.go b/support/manager.go
index 558495d..ed3993d 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -91,7 +91,7 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 			logger.Errorf(readErr.Error())
 			return nil, readErr
 		}
-		if readBytes[0] == 0x1f && readBytes[2] == 0x8b {
+		if len(readBytes) >= 2 && readBytes[0] == 0x1f && readBytes[1] == 0x8b {
 			flowDefBytes, err = unzip(readBytes)
 			if err != nil {
 				decompressErr := fmt.Errorf("error uncompressing flow with uri '%s', %s", flowURI, err.Error())
-- 
2.43.0


From eecb24a16c0bc0ef8d71f19c6efb64c86cdd46f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 61/93] fix: loading a remote flow that calls a remote flow
 never ends

---
 definition/mapper.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/definition/mapper.go b/definition/mapper.go
index ba99311..52e04d2 100644
--- a/definition/mapper.go
+++ b/definition/mapper.go
@@ -22,20 +22,21 @@ func GetMapperFactory() mapper.Factory {
 
 func NewDefaultActivityOutputMapper(task *Task) mapper.Mapper {
 	attrNS := "_A." + task.ID() + "."
-	return &defaultActivityOutputMapper{attrNS: attrNS, metadata: task.activityCfg.Activity.Metadata()}
+	return &defaultActivityOutputMapper{attrNS: attrNS, activity: task.activityCfg.Activity}
 }
 
 // BasicMapper is a simple object holding and executing mappings
 type defaultActivityOutputMapper struct {
 	attrNS   string
-	metadata *activity.Metadata
+	activity activity.Activity
 }
 
 func (m *defaultActivityOutputMapper) Apply(scope data.Scope) (map[string]interface{}, error) {
 
-	if m.metadata.IOMetadata != nil {
-		output := make(map[string]interface{}, len(m.metadata.Output))
-		for name := range m.metadata.Output {
+	// the metadata of a subflow activity is that of the called flow, which may not be available before the call
+	if md := m.activity.Metadata(); md.IOMetadata != nil {
+		output := make(map[string]interface{}, len(md.Output))
+		for name := range md.Output {
 
 			value, ok := scope.GetValue(name)
 			if ok {
-- 
2.43.0


From 487227404a5a817764094ec8bacb84aed38b1779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 62/93] fix: a compressed flow that is not encoded correctly is
 accepted

---
 support/manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/support/manager.go b/support/manager.go
index ed3993d..f268cab 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -158,7 +158,10 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 
 func decodeAndUnzip(encoded string) ([]byte, error) {
 
-	decoded, _ := base64.StdEncoding.DecodeString(encoded)
+	decoded, err := base64.StdEncoding.DecodeString(encoded)
+	if err != nil {
+		return nil, err
+	}
 	return unzip(decoded)
 }
 
-- 
2.43.0


From b381ab6316a114ad29d9ae3e72181c2cc82e0e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 63/93] fix: a malformed remote flow panics

---
 support/manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/support/manager.go b/support/manager.go
index f268cab..1952b34 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -41,7 +41,10 @@ func NewFlowManager(flowProvider definition.Provider) *FlowManager {
 	return manager
 }
 
-func (fm *FlowManager) GetFlow(uri string) (*definition.Definition, error) {
+func (fm *FlowManager) GetFlow(uri string) (flow *definition.Definition, err error) {
+
+	// parsing the metadata of a malformed document can panic
+	defer support.HandlePanic("GetFlow", &err)
 
 	fm.rfMu.Lock()
 	defer fm.rfMu.Unlock()
-- 
2.43.0


From d1a5f0239b4fa3c59127b95a3d37bc4ce85b5bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 64/93] fix: an invalid URI of a remote flow panics

---
 support/manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/support/manager.go b/support/manager.go
index 1952b34..9a9461a 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -108,6 +108,11 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 
 	} else if strings.HasPrefix(flowURI, uriSchemeHttp) {
 		req, err := http.NewRequest("GET", flowURI, nil)
+		if err != nil {
+			reqErr := fmt.Errorf("error getting flow with uri '%s', %s", flowURI, err.Error())
+			logger.Errorf(reqErr.Error())
+			return nil, reqErr
+		}
 		client := &http.Client{}
 		resp, err := client.Do(req)
 		if err != nil {
-- 
2.43.0


From e86c3e333fae4bec241cfae8a025e88924ea41f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 65/93] fix: data races between runs on cached environment
 settings

---
 support/env.go | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/support/env.go b/support/env.go
index 540332f..450cf7a 100644
--- a/support/env.go
+++ b/support/env.go
@@ -20,25 +20,15 @@ const (
 	PrioritizeExprLinkDefault bool = false
 )
 
-var username, hostName, appName, appVersion string
-
 func GetUserName() string {
-	if len(username) > 0 {
-		return username
-	}
-	username = os.Getenv(UserName)
-	if len(username) > 0 {
+	if username := os.Getenv(UserName); len(username) > 0 {
 		return username
 	}
 	return "flogo"
 }
 
 func GetHostId() string {
-	if len(hostName) > 0 {
-		return hostName
-	}
-	hostName = os.Getenv(HostName)
-	if len(hostName) > 0 {
+	if hostName := os.Getenv(HostName); len(hostName) > 0 {
 		return hostName
 	}
 	h, _ := os.Hostname()
@@ -46,25 +36,17 @@ func GetHostId() string {
 }
 
 func GetAppName() string {
-	if len(appName) > 0 {
-		return appName
-	}
-	appName = os.Getenv(AppName)
-	if len(appName) <= 0 {
-		return engine.GetAppName()
+	if name := os.Getenv(AppName); len(name) > 0 {
+		return name
 	}
-	return appName
+	return engine.GetAppName()
 }
 
 func GetAppVerison() string {
-	if len(appVersion) > 0 {
-		return appVersion
-	}
-	appVersion = os.Getenv(AppVersion)
-	if len(appVersion) <= 0 {
-		return engine.GetAppVersion()
+	if version := os.Getenv(AppVersion); len(version) > 0 {
+		return version
 	}
-	return appVersion
+	return engine.GetAppVersion()
 }
 
 func GetPropagateSkip() bool {
-- 
2.43.0


From 41b05f52a75621616c1149a9c421294a7908c63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 66/93] fix: data races on explicit returns and replies with
 concurrent task execution

---
 instance/ind_instance.go |  4 ++--
 instance/instance.go     | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index b4e396d..07dc1c7 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -620,7 +620,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 		flowDone = flowBehavior.TaskDone(containerInst)
 	}
 
-	if flowDone || containerInst.forceCompletion {
+	if flowDone || containerInst.returned() {
 		//flow completed or return was called explicitly, so lets complete the flow
 		if containerInst.status == model.FlowStatusActive {
 			inst.completeFlow(containerInst)
@@ -822,7 +822,7 @@ func (inst *IndependentInstance) failFlow(containerInst *Instance, err error) {
 	// Print error message if no error handler
 	inst.logger.Error(err)
 	inst.cancelSubflows(containerInst)
-	containerInst.returnError = err
+	containerInst.setError(err)
 	containerInst.SetStatus(model.FlowStatusFailed)
 
 	if containerInst != inst.Instance {
diff --git a/instance/instance.go b/instance/instance.go
index c5ac562..0cdfd7b 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -197,22 +197,54 @@ func (inst *Instance) IOMetadata() *metadata.IOMetadata {
 
 func (inst *Instance) Reply(replyData map[string]interface{}, err error) {
 	if inst.resultHandler != nil {
+		if inst.lock != nil {
+			inst.lock.Lock()
+		}
 		inst.returnData = replyData
+		if inst.lock != nil {
+			inst.lock.Unlock()
+		}
 		inst.resultHandler.HandleResult(replyData, err)
 	}
 }
 
 func (inst *Instance) Return(returnData map[string]interface{}, err error) {
+	if inst.lock != nil {
+		inst.lock.Lock()
+		defer inst.lock.Unlock()
+	}
 	inst.forceCompletion = true
 	inst.returnData = returnData
 	inst.returnError = err
 }
 
+// setError sets the error the flow ends with
+func (inst *Instance) setError(err error) {
+	if inst.lock != nil {
+		inst.lock.Lock()
+		defer inst.lock.Unlock()
+	}
+	inst.returnError = err
+}
+
+// returned indicates if an explicit return was made
+func (inst *Instance) returned() bool {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	return inst.forceCompletion
+}
+
 func (inst *Instance) Scope() data.Scope {
 	return inst
 }
 
 func (inst *Instance) GetError() error {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
 	return inst.returnError
 }
 
-- 
2.43.0


From 3b22becbbed146fb1a9170b7b5d669502967586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 67/93] fix: data race on the status of tasks with concurrent
 task execution

---
 instance/ind_instance.go | 8 ++++----
 instance/instance.go     | 2 +-
 instance/instance_chg.go | 4 ++--
 instance/instance_ser.go | 2 +-
 instance/taskinst.go     | 6 ++++++
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 07dc1c7..0f34025 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -533,9 +533,9 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 	var err error
 	var evalResult model.EvalResult
 
-	if taskInst.status == model.TaskStatusWaiting {
+	if status := taskInst.Status(); status == model.TaskStatusWaiting {
 		evalResult, err = behavior.PostEval(taskInst)
-	} else if taskInst.status == model.TaskStatusSkipped || taskInst.status == model.TaskStatusDone {
+	} else if status == model.TaskStatusSkipped || status == model.TaskStatusDone {
 		return
 	} else {
 		evalResult, err = behavior.Eval(taskInst)
@@ -1055,7 +1055,7 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 			if ok {
 				if wi.taskInst != nil {
 					// Update the status, unless the task is to be continued after its subflow has ended
-					if wi.taskInst.status != model.TaskStatusWaiting {
+					if wi.taskInst.Status() != model.TaskStatusWaiting {
 						wi.taskInst.SetStatus(model.TaskStatusReady)
 					}
 					// Add item back to queue
@@ -1209,7 +1209,7 @@ func populateBaseSnapshot(inst *Instance, base *state.SnapshotBase) {
 	if len(inst.taskInsts) > 0 {
 		base.Tasks = make([]*state.Task, 0, len(inst.taskInsts))
 		for id, task := range inst.taskInsts {
-			base.Tasks = append(base.Tasks, &state.Task{Id: id, Status: int(task.status)})
+			base.Tasks = append(base.Tasks, &state.Task{Id: id, Status: int(task.Status())})
 		}
 	}
 
diff --git a/instance/instance.go b/instance/instance.go
index 0cdfd7b..4f3949f 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -165,7 +165,7 @@ func (inst *Instance) finishWaitingTraces() {
 	for _, taskInst := range inst.taskInsts {
 		// if the task is just being continued, its trace is finished as soon as that ends
 		if taskInst.execLock.TryLock() {
-			if taskInst.status == model.TaskStatusWaiting {
+			if taskInst.Status() == model.TaskStatusWaiting {
 				taskInst.finishTrace(errAbandoned)
 			}
 			taskInst.execLock.Unlock()
diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index f87eb3a..26dd2d7 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -264,7 +264,7 @@ func (sct *SimpleChangeTracker) TaskAdded(taskInst *TaskInst) {
 		sct.lock.Lock()
 	}
 	task := getTaskChange(sct.currentStep, taskInst.flowInst.subflowId, taskInst.taskID, taskInst.flowInst.flowURI)
-	task.Status = int(taskInst.status)
+	task.Status = int(taskInst.Status())
 }
 
 func (sct *SimpleChangeTracker) TaskUpdated(taskInst *TaskInst) {
@@ -274,7 +274,7 @@ func (sct *SimpleChangeTracker) TaskUpdated(taskInst *TaskInst) {
 	}
 	task := getTaskChange(sct.currentStep, taskInst.flowInst.subflowId, taskInst.taskID, taskInst.flowInst.flowURI)
 	task.ChgType = change.Update
-	task.Status = int(taskInst.status)
+	task.Status = int(taskInst.Status())
 	// Store input for debugger mode
 	if sct.mode == state.RecordingModeDebugger {
 		task.Input = util.DeepCopyMap(taskInst.inputs)
diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index ac2b79a..3c933db 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -352,7 +352,7 @@ func (ti *TaskInst) MarshalJSON() ([]byte, error) {
 
 	ser := &serTaskInst{
 		TaskID:      ti.taskID,
-		Status:      int(ti.status),
+		Status:      int(ti.Status()),
 		Inputs:      ti.inputs,
 		Outputs:     ti.outputs,
 		Settings:    ti.settings,
diff --git a/instance/taskinst.go b/instance/taskinst.go
index 624d500..bc42b97 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -81,6 +81,8 @@ type TaskInst struct {
 	asyncExec bool
 	// When concurrent execution mode is enabled, this lock ensures that task is executed by one goroutine at a time
 	execLock sync.Mutex
+	// When concurrent execution mode is enabled, the status is read by the goroutines of other tasks
+	statusLock sync.RWMutex
 }
 
 /////////////////////////////////////////
@@ -179,12 +181,16 @@ func (ti *TaskInst) Logger() log.Logger {
 
 // Status implements flow.TaskContext.GetState
 func (ti *TaskInst) Status() model.TaskStatus {
+	ti.statusLock.RLock()
+	defer ti.statusLock.RUnlock()
 	return ti.status
 }
 
 // SetStatus implements flow.TaskContext.SetStatus
 func (ti *TaskInst) SetStatus(status model.TaskStatus) {
+	ti.statusLock.Lock()
 	ti.status = status
+	ti.statusLock.Unlock()
 	ti.flowInst.master.changeTracker.TaskUpdated(ti)
 	postTaskEvent(ti)
 }
-- 
2.43.0


From 519b31bb65a76ef1d490ccb28f717665e3a606b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 68/93] fix: data races on results of interceptors with
 concurrent task execution

---
 instance/ind_instance.go |  9 +++++++++
 instance/util.go         | 41 +++++++++++++++++++++++++---------------
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 0f34025..5095cd5 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -34,6 +34,8 @@ type IndependentInstance struct {
 	flowModel   *model.FlowModel
 	patch       *flowsupport.Patch
 	interceptor *flowsupport.Interceptor
+	// tasks that are executed concurrently report their results to the interceptor
+	interceptorLock sync.Mutex
 
 	subflowCtr int
 	subflows   map[int]*Instance
@@ -339,6 +341,13 @@ func (inst *IndependentInstance) ApplyPatch(patch *flowsupport.Patch) {
 	}
 }
 
+// updateInterceptor changes results in the interceptor
+func (inst *IndependentInstance) updateInterceptor(change func()) {
+	inst.interceptorLock.Lock()
+	defer inst.interceptorLock.Unlock()
+	change()
+}
+
 func (inst *IndependentInstance) ApplyInterceptor(interceptor *flowsupport.Interceptor) {
 	if inst.interceptor == nil {
 		inst.interceptor = interceptor
diff --git a/instance/util.go b/instance/util.go
index 3656102..9f23e79 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -151,38 +151,45 @@ func applyAssertionInterceptor(taskInst *TaskInst, assertType int) error {
 		if taskInterceptor != nil && len(taskInterceptor.Assertions) > 0 {
 			ef := expression.NewFactory(definition.GetDataResolver())
 
-			for name, assertion := range taskInterceptor.Assertions {
+			for name := range taskInterceptor.Assertions {
+				assertion := &taskInterceptor.Assertions[name]
 				if taskInterceptor.Type != assertType {
-					taskInterceptor.Assertions[name].Result = support.AssertionNotExecuted
+					master.updateInterceptor(func() {
+						assertion.Result = support.AssertionNotExecuted
+					})
 					continue
 				}
 				if taskInst.logger.DebugEnabled() {
-					taskInst.logger.Debugf("Executing Assertion Attr: %s = %s", name, assertion)
+					taskInst.logger.Debugf("Executing Assertion Attr: %d = %v", name, assertion.Expression)
 				}
 				result := false
 				var message string
 				var evalData ast.ExprEvalData
 				if assertion.Expression == "" {
-					taskInterceptor.Assertions[name].Message = "Empty expression"
-					taskInterceptor.Assertions[name].Result = support.NotExecuted
+					master.updateInterceptor(func() {
+						assertion.Message = "Empty expression"
+						assertion.Result = support.NotExecuted
+					})
 					continue
 				}
 
 				if assertion.Type == support.Primitive {
-					result, message, evalData = applyPrimitiveAssertion(taskInst, ef, &assertion)
+					result, message, evalData = applyPrimitiveAssertion(taskInst, ef, assertion)
 				} else {
 					taskInst.Logger().Errorf("Invalid Assertion Mode")
 					return errors.New("Invalid Assertion Mode")
 				}
 
-				taskInterceptor.Assertions[name].Message = message
-				taskInterceptor.Assertions[name].EvalResult = evalData
 				//Set the result back in the Interceptor.
-				if result {
-					taskInterceptor.Assertions[name].Result = support.Pass
-				} else {
-					taskInterceptor.Assertions[name].Result = support.Fail
-				}
+				master.updateInterceptor(func() {
+					assertion.Message = message
+					assertion.EvalResult = evalData
+					if result {
+						assertion.Result = support.Pass
+					} else {
+						assertion.Result = support.Fail
+					}
+				})
 				taskInst.logger.Debugf("Assertion Execution Result => Name: %s, Assertion Expression: %v, Result: %s, Message: %s ",
 					assertion.Name, assertion.Expression, strconv.FormatBool(result), message)
 			}
@@ -310,7 +317,9 @@ func setActivityExecutionStatus(taskInst *TaskInst, status int) {
 		id := taskInst.flowInst.Name() + "-" + taskInst.task.ID()
 		taskInterceptor := master.interceptor.GetTaskInterceptor(id)
 		if taskInterceptor != nil {
-			taskInterceptor.Result = status
+			master.updateInterceptor(func() {
+				taskInterceptor.Result = status
+			})
 		}
 	}
 }
@@ -324,7 +333,9 @@ func setActivityExecutionMessage(taskInst *TaskInst, message string) {
 		id := taskInst.flowInst.Name() + "-" + taskInst.task.ID()
 		taskInterceptor := master.interceptor.GetTaskInterceptor(id)
 		if taskInterceptor != nil {
-			taskInterceptor.Message = message
+			master.updateInterceptor(func() {
+				taskInterceptor.Message = message
+			})
 		}
 	}
 }
-- 
2.43.0


From 791dd66cbeff620726ef21a082d297c00f8566ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 69/93] fix: data race on the work queue when a state is
 recorded with concurrent task execution

---
 instance/ind_instance.go | 40 ++++++++++++++++++++++++++++++++--------
 instance/instance_ser.go |  9 +++++----
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 5095cd5..2621e99 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -26,7 +26,9 @@ type IndependentInstance struct {
 	id            string
 	stepID        int
 	workItemQueue *support.SyncQueue //todo: change to faster non-threadsafe queue
-	wiCounter     int
+	// the queue is listed while other goroutines schedule and execute tasks
+	workItemLock sync.Mutex
+	wiCounter    int
 
 	trackingChanges bool
 	changeTracker   ChangeTracker
@@ -389,7 +391,7 @@ func (inst *IndependentInstance) DoStep() bool {
 	if inst.status == model.FlowStatusActive {
 
 		// get item to be worked on
-		item, ok := inst.workItemQueue.Pop()
+		item, ok := inst.popWorkItem()
 
 		if ok {
 			//dev logging
@@ -424,7 +426,7 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 
 	for inst.isActive() {
 		// get item to be worked on
-		item, ok := inst.workItemQueue.Pop()
+		item, ok := inst.popWorkItem()
 		if ok {
 			wi := item.(*WorkItem)
 			if stepCount >= util.GetMaxStepCount() {
@@ -467,6 +469,29 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 	return nil
 }
 
+func (inst *IndependentInstance) pushWorkItem(workItem *WorkItem) {
+	inst.workItemLock.Lock()
+	defer inst.workItemLock.Unlock()
+	inst.workItemQueue.Push(workItem)
+}
+
+func (inst *IndependentInstance) popWorkItem() (interface{}, bool) {
+	inst.workItemLock.Lock()
+	defer inst.workItemLock.Unlock()
+	return inst.workItemQueue.Pop()
+}
+
+// workItems lists the queued work items, the next one first
+func (inst *IndependentInstance) workItems() []*WorkItem {
+	inst.workItemLock.Lock()
+	defer inst.workItemLock.Unlock()
+	items := make([]*WorkItem, 0, inst.workItemQueue.List.Len())
+	for e := inst.workItemQueue.List.Front(); e != nil; e = e.Next() {
+		items = append(items, e.Value.(*WorkItem))
+	}
+	return items
+}
+
 func (inst *IndependentInstance) isActive() bool {
 	inst.lockScheduling()
 	defer inst.unlockScheduling()
@@ -480,7 +505,7 @@ func (inst *IndependentInstance) scheduleEval(taskInst *TaskInst) {
 	workItem := NewWorkItem(inst.wiCounter, taskInst)
 	inst.logger.Debugf("Scheduling task '%s'", taskInst.task.ID())
 
-	inst.workItemQueue.Push(workItem)
+	inst.pushWorkItem(workItem)
 
 	// track the fact that the work item was added to the queue
 	inst.changeTracker.WorkItemAdded(workItem)
@@ -1058,7 +1083,7 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 	inst.SetStatus(model.FlowStatusActive)
 	if initStepId+1 > 0 {
 		// Restart from activity. Read the item from queue
-		step, ok := inst.workItemQueue.Pop()
+		step, ok := inst.popWorkItem()
 		if ok {
 			wi, ok := step.(*WorkItem)
 			if ok {
@@ -1068,7 +1093,7 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 						wi.taskInst.SetStatus(model.TaskStatusReady)
 					}
 					// Add item back to queue
-					inst.workItemQueue.Push(step)
+					inst.pushWorkItem(step.(*WorkItem))
 				}
 			}
 		}
@@ -1182,8 +1207,7 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 
 	populateBaseSnapshot(inst.Instance, fs.SnapshotBase)
 
-	for e := inst.workItemQueue.List.Front(); e != nil; e = e.Next() {
-		workItem := e.Value.(*WorkItem)
+	for _, workItem := range inst.workItems() {
 		fs.WorkQueue = append(fs.WorkQueue, &state.WorkItem{
 			ID:        workItem.ID,
 			SubflowId: workItem.SubFlowID,
diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 3c933db..17c2099 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -30,11 +30,12 @@ type serIndependentInstance struct {
 // MarshalJSON overrides the default MarshalJSON for FlowInstance
 func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 
-	queue := make([]*WorkItem, 0, inst.workItemQueue.List.Len())
+	items := inst.workItems()
+	queue := make([]*WorkItem, 0, len(items))
 
-	for e := inst.workItemQueue.List.Front(); e != nil; e = e.Next() {
+	for _, workItem := range items {
 		//there is nothing left to do for tasks that were abandoned
-		if workItem, ok := e.Value.(*WorkItem); ok && (!inst.initialized() || workItem.taskInst.isCurrent()) {
+		if !inst.initialized() || workItem.taskInst.isCurrent() {
 			queue = append(queue, workItem)
 		}
 	}
@@ -154,7 +155,7 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 		if workItem.taskInst == nil {
 			return fmt.Errorf("work item for unknown task [%s]", workItem.TaskID)
 		}
-		inst.workItemQueue.Push(workItem)
+		inst.pushWorkItem(workItem)
 	}
 
 	return nil
-- 
2.43.0


From dfb8a2341074b2cb8d0a4b6376ad9fd7413f9f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 70/93] fix: a reconfiguration document with null tasks or
 without activities panicked

---
 definition/definition.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/definition/definition.go b/definition/definition.go
index d447a00..96e87e1 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -117,6 +117,9 @@ func (d *Definition) Reconfigure(config *resource.Config) error {
 	// Main flow tasks
 	if def.Tasks != nil {
 		for _, taskRep := range def.Tasks {
+			if taskRep == nil || taskRep.ActivityCfgRep == nil {
+				continue
+			}
 			task := d.tasks[taskRep.ID]
 			if task != nil && len(task.activityCfg.settings) > 0 {
 				err = task.reconfigureTaskSettings(taskRep, ef)
@@ -130,6 +133,9 @@ func (d *Definition) Reconfigure(config *resource.Config) error {
 	// Error handler tasks
 	if def.ErrorHandler != nil && d.errorHandler != nil {
 		for _, taskRep := range def.ErrorHandler.Tasks {
+			if taskRep == nil || taskRep.ActivityCfgRep == nil {
+				continue
+			}
 			task := d.errorHandler.tasks[taskRep.ID]
 			if task != nil && len(task.activityCfg.settings) > 0 {
 				err = task.reconfigureTaskSettings(taskRep, ef)
-- 
2.43.0


From 2c50a76201252b45af28473b004962be7f25e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 71/93] fix: a failed reconfiguration left the settings of the
 task partly changed

---
 definition/definition.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/definition/definition.go b/definition/definition.go
index 96e87e1..9a013af 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -154,16 +154,22 @@ func (task *Task) reconfigureTaskSettings(taskRep *TaskRep, ef expression.Factor
 	var err error
 	if reconfigurable, ok := task.activityCfg.Activity.(activity.ReconfigurableActivity); ok {
 		mdSettings := task.activityCfg.Activity.Metadata().Settings
+		// the settings in use stay as they are until the activity has accepted the new ones
+		settings := make(map[string]interface{}, len(task.activityCfg.settings))
+		for name, value := range task.activityCfg.settings {
+			settings[name] = value
+		}
 		for name, value := range taskRep.ActivityCfgRep.Settings {
-			task.activityCfg.settings[name], err = metadata.ResolveSettingValue(name, value, mdSettings, ef)
+			settings[name], err = metadata.ResolveSettingValue(name, value, mdSettings, ef)
 			if err != nil {
 				return fmt.Errorf("unable to resolve setting [%s]'s value [%s]:%s", name, value, err.Error())
 			}
 		}
-		err = reconfigurable.Reconfigure(task.activityCfg.settings)
+		err = reconfigurable.Reconfigure(settings)
 		if err != nil {
 			return fmt.Errorf("failed to reconfigure activity [%s] due to error:%v", task.ID(), err)
 		} else {
+			task.activityCfg.settings = settings
 			log.RootLogger().Infof("Activity: %s successfully reconfigured", task.ID())
 		}
 	}
-- 
2.43.0


From c0779557b48119d9dd8a5cd02148dfa4af2b6394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 72/93] fix: a setting that panics while it is resolved kept
 other tasks from being reconfigured

---
 definition/definition.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/definition/definition.go b/definition/definition.go
index 9a013af..91a67a4 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -150,8 +150,11 @@ func (d *Definition) Reconfigure(config *resource.Config) error {
 	return nil
 }
 
-func (task *Task) reconfigureTaskSettings(taskRep *TaskRep, ef expression.Factory) error {
-	var err error
+func (task *Task) reconfigureTaskSettings(taskRep *TaskRep, ef expression.Factory) (err error) {
+
+	// the settings of one task must not keep the other tasks from being reconfigured
+	defer support.HandlePanic("reconfigureTaskSettings", &err)
+
 	if reconfigurable, ok := task.activityCfg.Activity.(activity.ReconfigurableActivity); ok {
 		mdSettings := task.activityCfg.Activity.Metadata().Settings
 		// the settings in use stay as they are until the activity has accepted the new ones
-- 
2.43.0


From 7df8f1564846a88a0f720d3063b2fafaa1a137ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 73/93] fix: data race between reconfiguration and flows that
 read settings

---
 definition/definition.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/definition/definition.go b/definition/definition.go
index 91a67a4..5d33f18 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -3,6 +3,7 @@ package definition
 import (
 	"encoding/json"
 	"fmt"
+	"sync"
 
 	"github.com/project-flogo/core/app/resource"
 	"github.com/project-flogo/core/data/coerce"
@@ -172,7 +173,9 @@ func (task *Task) reconfigureTaskSettings(taskRep *TaskRep, ef expression.Factor
 		if err != nil {
 			return fmt.Errorf("failed to reconfigure activity [%s] due to error:%v", task.ID(), err)
 		} else {
+			task.activityCfg.settingsLock.Lock()
 			task.activityCfg.settings = settings
+			task.activityCfg.settingsLock.Unlock()
 			log.RootLogger().Infof("Activity: %s successfully reconfigured", task.ID())
 		}
 	}
@@ -204,7 +207,8 @@ type ActivityConfig struct {
 	HostName string
 	Type     string
 
-	settings map[string]interface{}
+	settings     map[string]interface{}
+	settingsLock sync.RWMutex // settings are replaced when the flow is reconfigured, flows may be running
 
 	inputMapper  mapper.Mapper
 	outputMapper mapper.Mapper
@@ -249,6 +253,9 @@ func (ac *ActivityConfig) Ref() string {
 // GetSetting gets the specified setting
 func (ac *ActivityConfig) GetSetting(setting string) (val interface{}, exists bool) {
 
+	ac.settingsLock.RLock()
+	defer ac.settingsLock.RUnlock()
+
 	if ac.settings != nil {
 		val, found := ac.settings[setting]
 		if found {
-- 
2.43.0


From 12a18cd89d96a4b5ecd1e6bd5f4d338c91980878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 74/93] fix: the outcome of a fast detached run was taken for
 that of its caller

---
 action.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index dfbd6e7..91e0e62 100644
--- a/action.go
+++ b/action.go
@@ -353,6 +353,12 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 	hasWork := true
 
+	startHandler := handler
+	if detachExecution {
+		// In detached mode, nobody waits for results. The given handler is only notified
+		// that the run was started, it may no longer be in use when the run ends.
+		handler = &detachedResultHandler{}
+	}
 	inst.SetResultHandler(handler)
 	if stateRecorder != nil {
 		//We don't need record step 0 if restart from activity
@@ -367,7 +373,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 	go func() {
 		if detachExecution {
 			// In detached mode, no reply expected. So, notifying handler.
-			handler.Done()
+			startHandler.Done()
 		} else {
 			defer handler.Done()
 		}
@@ -445,6 +451,16 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 	return nil
 }
 
+// detachedResultHandler is the result handler of detached runs, it drops the results
+type detachedResultHandler struct {
+}
+
+func (*detachedResultHandler) HandleResult(map[string]interface{}, error) {
+}
+
+func (*detachedResultHandler) Done() {
+}
+
 func (fa *FlowAction) applyAssertionInterceptor(inst *instance.IndependentInstance, assertType int) bool {
 
 	if !inst.HasInterceptor() {
-- 
2.43.0


From 798c05c1f8f0389c195edb0f9848761ee11cb0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 75/93] fix: on-demand flows announced a function instead of
 the id of the instance

---
 ondemand/action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index f44798a..05ee335 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -228,7 +228,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 			results := make(map[string]interface{})
 
-			results["id"] = inst.ID
+			results["id"] = inst.ID()
 
 			handler.HandleResult(results, nil)
 		}
-- 
2.43.0


From 55d815f350aab4490f6112681ec5a708308f5fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:56 +0000
Subject: [PATCH 76/93] fix: a flow package of another type made the on-demand
 action panic

---
 ondemand/action.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 05ee335..cea038c 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -179,7 +179,10 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 	if exists {
 
-		raw := fpAttr.(json.RawMessage)
+		raw, ok := fpAttr.(json.RawMessage)
+		if !ok {
+			return fmt.Errorf("flow package is not a JSON document but of type '%T'", fpAttr)
+		}
 		err := json.Unmarshal(raw, flowPackage)
 		if err != nil {
 			return err
-- 
2.43.0


From e76f01dc8c8fa18018461394325826287f18609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:56 +0000
Subject: [PATCH 77/93] fix: a flow package without a flow or with malformed
 metadata made the on-demand action panic

---
 ondemand/action.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index cea038c..2370fe2 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -175,7 +175,8 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 	fpAttr, exists := inputs[ivFlowPackage]
 
-	flowPackage := &FlowPackage{}
+	var flowPackage *FlowPackage
+	var flowDef *definition.Definition
 
 	if exists {
 
@@ -183,7 +184,8 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		if !ok {
 			return fmt.Errorf("flow package is not a JSON document but of type '%T'", fpAttr)
 		}
-		err := json.Unmarshal(raw, flowPackage)
+		var err error
+		flowPackage, flowDef, err = loadFlowPackage(raw)
 		if err != nil {
 			return err
 		}
@@ -194,12 +196,6 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 	logger.Debugf("InputMappings: %+v", flowPackage.Inputs)
 	logger.Debugf("OutputMappings: %+v", flowPackage.Outputs)
 
-	flowDef, err := definition.NewDefinition(flowPackage.Flow)
-
-	if err != nil {
-		return err
-	}
-
 	flowInputs, err := ApplyMappings(flowPackage.Inputs, inputs)
 	if err != nil {
 		return err
@@ -294,3 +290,27 @@ func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{
 
 	return out, nil
 }
+
+// loadFlowPackage reads a flow package and creates the definition of its flow
+func loadFlowPackage(raw json.RawMessage) (flowPackage *FlowPackage, flowDef *definition.Definition, err error) {
+
+	// parsing the metadata of a malformed flow can panic
+	defer support.HandlePanic("loadFlowPackage", &err)
+
+	flowPackage = &FlowPackage{}
+	err = json.Unmarshal(raw, flowPackage)
+	if err != nil {
+		return nil, nil, err
+	}
+
+	if flowPackage.Flow == nil {
+		return nil, nil, errors.New("flow not provided in flow package")
+	}
+
+	flowDef, err = definition.NewDefinition(flowPackage.Flow)
+	if err != nil {
+		return nil, nil, err
+	}
+
+	return flowPackage, flowDef, nil
+}
-- 
2.43.0


From f241ceb62874bc9b0ec3c8075d0085cc321ca702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:57 +0000
Subject: [PATCH 78/93] fix: input mappings of flow packages that fail were
 ignored

---
 ondemand/action.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 2370fe2..a0af60a 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -286,9 +286,7 @@ func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{
 
 	inScope := data.NewSimpleScope(inputs, nil)
 
-	out, _ := m.Apply(inScope)
-
-	return out, nil
+	return m.Apply(inScope)
 }
 
 // loadFlowPackage reads a flow package and creates the definition of its flow
-- 
2.43.0


From 7399987687f136f97911fc4d3bae45ace825e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:58 +0000
Subject: [PATCH 79/93] fix: a flow package without input mappings made the
 on-demand action panic

---
 ondemand/action.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ondemand/action.go b/ondemand/action.go
index a0af60a..3485b45 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -284,6 +284,11 @@ func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{
 		return nil, err
 	}
 
+	if m == nil {
+		// there are no mappings
+		return make(map[string]interface{}), nil
+	}
+
 	inScope := data.NewSimpleScope(inputs, nil)
 
 	return m.Apply(inScope)
-- 
2.43.0


From d788e631a28428932b521f47314a1dd032a5428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:59 +0000
Subject: [PATCH 80/93] fix: on-demand runs reported two outcomes when they
 failed at the step limit

---
 ondemand/action.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 3485b45..a04b986 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -236,7 +236,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			logger.Info("Concurrent task execution feature is enabled. All independent activities will run concurrently.")
 			err := inst.DoStepInLoop()
 			if err != nil {
-				handler.HandleResult(nil, err)
+				inst.Fail(err)
 			}
 		} else {
 			for hasWork && inst.Status() < model.FlowStatusCompleted && stepCount < maxStepCount {
@@ -249,8 +249,8 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					//ep.GetStateRecorder().RecordStep(inst)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() != model.FlowStatusCompleted {
-				handler.HandleResult(nil, fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
+			if stepCount >= maxStepCount {
+				inst.Fail(fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
 			}
 		}
 
-- 
2.43.0


From 63a1a759eaffcf744a9ed6b7b5ef4c9b62f93165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:02 +0000
Subject: [PATCH 81/93] fix: requests of the flow tester without a state
 panicked

---
 tester/request.go | 9 +++++++++
 tester/service.go | 1 +
 2 files changed, 10 insertions(+)

diff --git a/tester/request.go b/tester/request.go
index f2a0af1..8053349 100644
--- a/tester/request.go
+++ b/tester/request.go
@@ -2,6 +2,7 @@ package tester
 
 import (
 	"context"
+	"errors"
 
 	"github.com/project-flogo/core/action"
 	"github.com/project-flogo/core/engine/runner"
@@ -93,6 +94,10 @@ func (rp *RequestProcessor) RestartFlow(restartRequest *RestartRequest) (results
 
 	logger.Debugf("Tester restarting flow")
 
+	if restartRequest.InitialState == nil {
+		return nil, errors.New("unable to restart flow, initial state not provided")
+	}
+
 	//todo share action, for now add flowUri to settings
 	settings := map[string]interface{}{"flowURI":restartRequest.InitialState.FlowURI()}
 
@@ -130,6 +135,10 @@ func (rp *RequestProcessor) ResumeFlow(resumeRequest *ResumeRequest) (results ma
 
 	logger.Debugf("Tester resuming flow")
 
+	if resumeRequest.State == nil {
+		return nil, errors.New("unable to resume flow, state not provided")
+	}
+
 	//todo share action, for now add flowUri to settings
 	settings := map[string]interface{}{"flowURI":resumeRequest.State.FlowURI()}
 
diff --git a/tester/service.go b/tester/service.go
index 3b5b69a..1da8132 100644
--- a/tester/service.go
+++ b/tester/service.go
@@ -207,6 +207,7 @@ func (ft *RestFlowTester) ResumeFlow(w http.ResponseWriter, r *http.Request, _ h
 	defer func() {
 		if r := recover(); r != nil {
 			logger.Error("Unable to resume flow, make sure definition registered")
+			http.Error(w, "unable to resume flow", http.StatusInternalServerError)
 		}
 	}()
 
-- 
2.43.0


From b01330a9bff9a7d25e9272e374e28f8a7c6024f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:02 +0000
Subject: [PATCH 82/93] fix: null entries in interceptors and patches panicked

---
 support/interceptor.go | 3 +++
 support/patch.go       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/support/interceptor.go b/support/interceptor.go
index cc42640..877df82 100644
--- a/support/interceptor.go
+++ b/support/interceptor.go
@@ -48,6 +48,9 @@ func (pi *Interceptor) Init() {
 		pi.taskInterceptorMap = make(map[string]*TaskInterceptor, numAttrs)
 
 		for _, interceptor := range pi.TaskInterceptors {
+			if interceptor == nil {
+				continue
+			}
 			pi.taskInterceptorMap[interceptor.ID] = interceptor
 		}
 	}
diff --git a/support/patch.go b/support/patch.go
index b547e48..17b6c32 100644
--- a/support/patch.go
+++ b/support/patch.go
@@ -22,6 +22,9 @@ func (pp *Patch) Init() {
 		pp.taskPatchMap = make(map[string]*TaskPatch, numAttrs)
 
 		for _, patch := range pp.TaskPatches {
+			if patch == nil {
+				continue
+			}
 			pp.taskPatchMap[patch.ID] = patch
 		}
 	}
-- 
2.43.0


From 10554404b05005a4892c4c0f01863061adc608d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:02 +0000
Subject: [PATCH 83/93] fix: null entries in the state of an instance panicked

---
 instance/instance_ser.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 17c2099..d64ebbd 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -106,12 +106,18 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 	inst.taskInsts = make(map[string]*TaskInst, len(ser.TaskInsts))
 
 	for _, taskInst := range ser.TaskInsts {
+		if taskInst == nil {
+			return errors.New("task instance without data")
+		}
 		inst.taskInsts[taskInst.taskID] = taskInst
 	}
 
 	inst.linkInsts = make(map[int]*LinkInst, len(ser.LinkInsts))
 
 	for _, linkInst := range ser.LinkInsts {
+		if linkInst == nil {
+			return errors.New("link instance without data")
+		}
 		inst.linkInsts[linkInst.id] = linkInst
 	}
 
@@ -122,6 +128,9 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 		inst.subflows = make(map[int]*Instance, len(ser.SubFlows))
 
 		for _, value := range ser.SubFlows {
+			if value == nil {
+				return errors.New("subflow instance without data")
+			}
 			inst.subflows[value.subflowId] = value
 
 			if value.subflowId > subFlowCtr {
@@ -137,6 +146,9 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 	for i := len(ser.WorkQueue) - 1; i >= 0; i-- {
 
 		workItem := ser.WorkQueue[i]
+		if workItem == nil {
+			return errors.New("work item without data")
+		}
 		if workItem.ID > inst.wiCounter {
 			inst.wiCounter = workItem.ID
 		}
@@ -245,12 +257,18 @@ func (inst *Instance) UnmarshalJSON(d []byte) error {
 	inst.taskInsts = make(map[string]*TaskInst, len(ser.TaskInsts))
 
 	for _, taskInst := range ser.TaskInsts {
+		if taskInst == nil {
+			return errors.New("task instance without data")
+		}
 		inst.taskInsts[taskInst.taskID] = taskInst
 	}
 
 	inst.linkInsts = make(map[int]*LinkInst, len(ser.LinkInsts))
 
 	for _, linkInst := range ser.LinkInsts {
+		if linkInst == nil {
+			return errors.New("link instance without data")
+		}
 		inst.linkInsts[linkInst.id] = linkInst
 	}
 
-- 
2.43.0


From e264f24a38d4137dc0e37045020dfa9b70a3acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:25 +0000
Subject: [PATCH 84/93] fix: resuming a deserialized instance panicked

---
 action.go                | 9 +++++++++
 instance/ind_instance.go | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/action.go b/action.go
index 91e0e62..38ea843 100644
--- a/action.go
+++ b/action.go
@@ -295,6 +295,15 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			inst = initialState
 			logger.Debug("Resuming Flow Instance: ", inst.ID())
 
+			if inst.FlowDefinition() == nil {
+				//the instance was deserialized, so it has to be bound to its flow definition
+				inst.SetInstanceRecorder(instance.NewStateInstanceRecorder(stateRecorder, stateRecordingMode, rerun))
+				err := inst.Restart(logger, inst.ID(), initStepId-1)
+				if err != nil {
+					return err
+				}
+			}
+
 			//instLogger := logger
 			//
 			//if log.CtxLoggingEnabled() {
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 2621e99..07515e3 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -89,6 +89,12 @@ func NewIndependentInstance(instanceID string, flowURI string, flow *definition.
 }
 
 // initChangeTracking starts the tracking of the changes of the instance, if that is enabled
+// ID returns the ID of the instance, which is also known when the instance was
+// deserialized and not yet bound to its flow definition
+func (inst *IndependentInstance) ID() string {
+	return inst.id
+}
+
 func (inst *IndependentInstance) initChangeTracking(startStepId int) {
 	if chgTrackingEnabled || os.Getenv("FLOGO_FLOW_SM_ENDPOINT") != "" {
 		inst.trackingChanges = true
-- 
2.43.0


From 987aef6c818231e396a1d639d8e1e86e083b2588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:38 +0000
Subject: [PATCH 85/93] fix: the mappings of patches were ignored

---
 action.go                |  5 ++++-
 instance/exec.go         |  9 +++++++--
 instance/ind_instance.go |  4 +++-
 instance/taskinst.go     | 12 +++++-------
 support/patch.go         | 38 +++++++++++++++++++++++++++++++++++++-
 5 files changed, 56 insertions(+), 12 deletions(-)

diff --git a/action.go b/action.go
index 38ea843..7a92553 100644
--- a/action.go
+++ b/action.go
@@ -317,7 +317,10 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 	if execOptions != nil {
 		logger.Debugf("Applying Exec Options to instance: %s", inst.ID())
-		instance.ApplyExecOptions(inst, execOptions)
+		err = instance.ApplyExecOptions(inst, execOptions)
+		if err != nil {
+			return err
+		}
 	}
 
 	//Update flow starting time
diff --git a/instance/exec.go b/instance/exec.go
index 2263878..c5c331c 100644
--- a/instance/exec.go
+++ b/instance/exec.go
@@ -37,14 +37,17 @@ type IDGenerator interface {
 }
 
 // ApplyExecOptions applies any execution options to the flow instance
-func ApplyExecOptions(instance *IndependentInstance, execOptions *ExecOptions) {
+func ApplyExecOptions(instance *IndependentInstance, execOptions *ExecOptions) error {
 
 	if execOptions != nil {
 
 		if execOptions.Patch != nil {
 			instance.logger.Debugf("Instance [%s] has patch", instance.ID())
 			instance.patch = execOptions.Patch
-			instance.patch.Init()
+			err := instance.patch.Init()
+			if err != nil {
+				return err
+			}
 		}
 
 		if execOptions.Interceptor != nil {
@@ -53,6 +56,8 @@ func ApplyExecOptions(instance *IndependentInstance, execOptions *ExecOptions) {
 			instance.interceptor.Init()
 		}
 	}
+
+	return nil
 }
 
 // IDResponse is a response object consists of an ID
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 07515e3..ffdee5e 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -345,7 +345,9 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 func (inst *IndependentInstance) ApplyPatch(patch *flowsupport.Patch) {
 	if inst.patch == nil {
 		inst.patch = patch
-		inst.patch.Init()
+		if err := inst.patch.Init(); err != nil {
+			inst.logger.Errorf("unable to apply patch: %v", err)
+		}
 	}
 }
 
diff --git a/instance/taskinst.go b/instance/taskinst.go
index bc42b97..7de26cd 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -359,15 +359,13 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 		ti.traceContext, _ = trace.GetTracer().StartTrace(ti.SpanConfig(), ti.flowInst.tracingCtx)
 	}
 
-	if actCfg.InputMapper() != nil {
+	//there can be an input mapper of a patch, even if the task does not have one
+	err := applyInputMapper(ti)
 
-		err := applyInputMapper(ti)
+	if err != nil {
 
-		if err != nil {
-
-			evalErr = NewActivityEvalError(ti.task.Name(), "mapper", err.Error())
-			return false, evalErr
-		}
+		evalErr = NewActivityEvalError(ti.task.Name(), "mapper", err.Error())
+		return false, evalErr
 	}
 
 	eval = applyInputInterceptor(ti)
diff --git a/support/patch.go b/support/patch.go
index 17b6c32..b06e979 100644
--- a/support/patch.go
+++ b/support/patch.go
@@ -1,8 +1,11 @@
 package support
 
 import (
+	"fmt"
+
 	"github.com/project-flogo/core/data"
 	"github.com/project-flogo/core/data/mapper"
+	"github.com/project-flogo/flow/definition"
 )
 
 // Patch contains a set of task patches for a Flow Patch, this
@@ -14,7 +17,7 @@ type Patch struct {
 }
 
 // Init initializes the FlowPatch, usually called after deserialization
-func (pp *Patch) Init() {
+func (pp *Patch) Init() error {
 
 	numAttrs := len(pp.TaskPatches)
 	if numAttrs > 0 {
@@ -25,9 +28,14 @@ func (pp *Patch) Init() {
 			if patch == nil {
 				continue
 			}
+			if err := patch.init(); err != nil {
+				return err
+			}
 			pp.taskPatchMap[patch.ID] = patch
 		}
 	}
+
+	return nil
 }
 
 // GetPatch returns the Task Patch for the specified task (referred to by ID)
@@ -71,6 +79,34 @@ type TaskPatch struct {
 	outputMapper mapper.Mapper
 }
 
+// init creates the mappers for the overriding mappings
+func (tp *TaskPatch) init() (err error) {
+
+	//the expression parser can panic
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid mappings in patch of task [%s]: %v", tp.ID, r)
+		}
+	}()
+
+	mf := definition.GetMapperFactory()
+
+	if tp.inputMapper == nil && len(tp.Input) > 0 {
+		tp.inputMapper, err = mf.NewMapper(tp.Input)
+		if err != nil {
+			return fmt.Errorf("invalid input mappings in patch of task [%s]: %v", tp.ID, err)
+		}
+	}
+	if tp.outputMapper == nil && len(tp.Output) > 0 {
+		tp.outputMapper, err = mf.NewMapper(tp.Output)
+		if err != nil {
+			return fmt.Errorf("invalid output mappings in patch of task [%s]: %v", tp.ID, err)
+		}
+	}
+
+	return nil
+}
+
 // InputMapper returns the overriding InputMapper
 func (tp *TaskPatch) InputMapper() mapper.Mapper {
 	return tp.inputMapper
-- 
2.43.0


From 0510ac3b7e084c77441c1fd0749faaf3423c4e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:38 +0000
Subject: [PATCH 86/93] fix: a state with subflows that call each other made
 the engine hang

---
 instance/ind_instance.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index ffdee5e..991d357 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -1150,6 +1150,10 @@ func (inst *IndependentInstance) initSubflows() error {
 			continue
 		}
 		hostFlow := inst.Instance
+		if subflow.hostRef.subflowId >= id {
+			// a subflow is called by the flow itself or a subflow that was started before
+			return fmt.Errorf("invalid host flow [%d] of subflow [%d]", subflow.hostRef.subflowId, id)
+		}
 		if subflow.hostRef.subflowId > 0 {
 			hostFlow = inst.subflows[subflow.hostRef.subflowId]
 		}
-- 
2.43.0


From a654266f10606776971485a99724341168c52bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 87/93] fix: concurrent execution of a flow with nothing left
 to do never ended

---
 instance/ind_instance.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 991d357..5559584 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -7,6 +7,7 @@ import (
 	"sort"
 	"strconv"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/project-flogo/flow/state"
@@ -431,10 +432,16 @@ func (inst *IndependentInstance) DoStep() bool {
 func (inst *IndependentInstance) DoStepInLoop() error {
 
 	var stepCount int
+	var running int32 // number of tasks that are executed on other goroutines
 
 	for inst.isActive() {
+		idle := atomic.LoadInt32(&running) == 0
 		// get item to be worked on
 		item, ok := inst.popWorkItem()
+		if !ok && idle {
+			// nothing is going on and nothing is left to do
+			break
+		}
 		if ok {
 			wi := item.(*WorkItem)
 			if stepCount >= util.GetMaxStepCount() {
@@ -445,7 +452,9 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 			stepCount++
 			if inst.concurrentExec {
 				// Execute ready tasks on different goroutines
+				atomic.AddInt32(&running, 1)
 				go func(wi *WorkItem) {
+					defer atomic.AddInt32(&running, -1)
 					defer func() {
 						log.RootLogger().Debugf("Task [%s] completed on goroutine", wi.taskInst.task.ID())
 						wi = nil
-- 
2.43.0


From 5b9fd7cf4b4b2bcbe2df18ebcd98c533e806740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 88/93] fix: outputs of an earlier execution of a task leaked
 into the next one

The outputs an activity has set are kept in the task, and were still there
when the task was executed again for the next iteration or attempt.
---
 instance/taskinst.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 7de26cd..7d04973 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -354,6 +354,9 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 
 	eval := true
 
+	// the outputs of a previous execution, e.g. of the previous iteration or of a failed attempt, do not count
+	ti.outputs = nil
+
 	// Start Trace
 	if trace.Enabled() {
 		ti.traceContext, _ = trace.GetTracer().StartTrace(ti.SpanConfig(), ti.flowInst.tracingCtx)
-- 
2.43.0


From cb125ce95d3ecb78eb2420e9c44d6a78219940cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:37 +0000
Subject: [PATCH 89/93] fix: loops over subflows and async activities did not
 retry on error

Only the plain task behavior retried when the failure was found by PostEval.
---
 model/simple/dowhilebehavior.go  |  5 ++++-
 model/simple/iteratorbehavior.go |  5 ++++-
 model/simple/taskbehavior.go     | 35 +++++++++++++++++++-------------
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index 8d36f98..7452dbe 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -55,13 +55,16 @@ func (dw *DoWhileTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model
 	ctx.FlowLogger().Debugf("PostEval doWhile Task '%s'", ctx.Task().ID())
 
 	initIndex(ctx)
-	_, err = ctx.PostEvalActivity()
+	done, err := postEvalActivity(ctx)
 
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
 		return model.EvalFail, err
 	}
+	if !done {
+		return model.EvalWait, nil
+	}
 	defer dw.updateDoWhileIndex(ctx)
 	evalResult, err = dw.checkDoWhileCondition(ctx)
 	if evalResult == model.EvalRepeat {
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index 30336fa..c175969 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -156,13 +156,16 @@ func (tb *IteratorTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Ev
 // PostEval implements model.TaskBehavior.PostEval
 func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model.EvalResult, err error) {
 	ctx.FlowLogger().Debugf("PostEval Iterator Task '%s'", ctx.Task().ID())
-	_, err = ctx.PostEvalActivity()
+	done, err := postEvalActivity(ctx)
 
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
 		return model.EvalFail, err
 	}
+	if !done {
+		return model.EvalWait, nil
+	}
 	itxAttr, _ := ctx.GetWorkingData("_iterator")
 	itx, err := toIterator(ctx, itxAttr)
 	if err != nil {
diff --git a/model/simple/taskbehavior.go b/model/simple/taskbehavior.go
index 76b6dbb..d2cb9db 100755
--- a/model/simple/taskbehavior.go
+++ b/model/simple/taskbehavior.go
@@ -154,6 +154,23 @@ func evalActivity(ctx model.TaskContext) (bool, error) {
 // PostEval implements model.TaskBehavior.PostEval
 func (tb *TaskBehavior) PostEval(ctx model.TaskContext) (evalResult model.EvalResult, err error) {
 	ctx.FlowLogger().Debugf("PostEval Task '%s'", ctx.Task().ID())
+	done, err := postEvalActivity(ctx)
+
+	if err != nil {
+		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
+		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
+		//ctx.SetStatus(model.TaskStatusFailed)
+		return model.EvalFail, err
+	}
+	if !done {
+		return model.EvalWait, nil
+	}
+	return model.EvalDone, nil
+}
+
+// postEvalActivity post evaluates the activity, and retries it if that is what the task is configured for.
+// It isn't done if the activity was retried and has to be waited for again.
+func postEvalActivity(ctx model.TaskContext) (done bool, err error) {
 	_, err = ctx.PostEvalActivity()
 
 	if err != nil {
@@ -161,7 +178,7 @@ func (tb *TaskBehavior) PostEval(ctx model.TaskContext) (evalResult model.EvalRe
 		if errVal, ok := err.(*activity.Error); ok && errVal.Retriable() && ctx.Task().RetryOnErrConfig() != nil {
 			retryData, rerr := getRetryData(ctx)
 			if rerr != nil {
-				return model.EvalFail, rerr
+				return false, rerr
 			}
 
 			if t, ok := ctx.(*instance.TaskInst); ok {
@@ -177,22 +194,12 @@ func (tb *TaskBehavior) PostEval(ctx model.TaskContext) (evalResult model.EvalRe
 			}
 
 			if retryData != nil && retryData.Count > 0 {
-				done, err := retryEval(ctx, retryData)
-				if err != nil {
-					return model.EvalFail, err
-				} else if done {
-					return model.EvalDone, nil
-				} else {
-					return model.EvalWait, nil
-				}
+				return retryEval(ctx, retryData)
 			}
 		}
-		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
-		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		//ctx.SetStatus(model.TaskStatusFailed)
-		return model.EvalFail, err
+		return false, err
 	}
-	return model.EvalDone, nil
+	return true, nil
 }
 
 // Done implements model.TaskBehavior.Done
-- 
2.43.0


From 39ecb6fdd07a555a1393292064f0436e7765a56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:38 +0000
Subject: [PATCH 90/93] fix: the retries used in one iteration of a loop were
 missing in the next

---
 model/simple/retry.go        | 10 +++++++++-
 model/simple/taskbehavior.go |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/model/simple/retry.go b/model/simple/retry.go
index 9bba4bb..698eb1a 100644
--- a/model/simple/retry.go
+++ b/model/simple/retry.go
@@ -26,7 +26,7 @@ func getRetryData(ctx model.TaskContext) (retryData *RetryData, err error) {
 	//assumes task was configured for retry
 	rd, ok := ctx.GetWorkingData(retryOnErrorAttr)
 
-	if !ok {
+	if !ok || rd == nil {
 		// first attempt - build retry data
 		retryData = &RetryData{}
 
@@ -56,6 +56,14 @@ func getRetryData(ctx model.TaskContext) (retryData *RetryData, err error) {
 	return retryData, nil
 }
 
+// resetRetryData forgets about the retries of an execution that has succeeded, so that the next one, e.g. of
+// the next iteration, has all of its retries
+func resetRetryData(ctx model.TaskContext) {
+	if rd, ok := ctx.GetWorkingData(retryOnErrorAttr); ok && rd != nil {
+		ctx.SetWorkingData(retryOnErrorAttr, nil)
+	}
+}
+
 // retryEval retries current task from Eval
 func retryEval(ctx model.TaskContext, retryData *RetryData) (bool, error) {
 
diff --git a/model/simple/taskbehavior.go b/model/simple/taskbehavior.go
index d2cb9db..457fa28 100755
--- a/model/simple/taskbehavior.go
+++ b/model/simple/taskbehavior.go
@@ -148,6 +148,9 @@ func evalActivity(ctx model.TaskContext) (bool, error) {
 		}
 		return done, err
 	}
+	if done {
+		resetRetryData(ctx)
+	}
 	return done, nil
 }
 
@@ -199,6 +202,7 @@ func postEvalActivity(ctx model.TaskContext) (done bool, err error) {
 		}
 		return false, err
 	}
+	resetRetryData(ctx)
 	return true, nil
 }
 
-- 
2.43.0


From 474ab8e757be7eb4bfa925ef78bccb9596221a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:48 +0000
Subject: [PATCH 91/93] fix: validate the outputs of subflows and asynchronous
 activities against their schemas

---
 instance/taskinst.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 7d04973..f563b0a 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -536,6 +536,21 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 
 	if done {
 
+		if schema.ValidationEnabled() {
+			if v, ok := act.(schema.ValidationBypass); !(ok && v.BypassValidation()) {
+				//do validation
+				for name, value := range ti.outputs {
+					s := ti.task.ActivityConfig().GetOutputSchema(name)
+					if s != nil {
+						err := s.Validate(value)
+						if err != nil {
+							return false, err
+						}
+					}
+				}
+			}
+		}
+
 		err := applyOutputInterceptor(ti)
 		if err != nil {
 			return false, err
-- 
2.43.0


From a865209611fefeb172260ea4146b6da47f4d349b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:49 +0000
Subject: [PATCH 92/93] fix: clean up the activities of the error handler when
 a flow is unloaded

---
 definition/definition.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/definition/definition.go b/definition/definition.go
index 5d33f18..a9f7673 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -85,18 +85,26 @@ func (d *Definition) GetAttr(attrName string) (attr *data.Attribute, exists bool
 }
 
 func (d *Definition) Cleanup() error {
-	for id, task := range d.tasks {
+	cleanupActivities(d.tasks)
+
+	if d.errorHandler != nil {
+		cleanupActivities(d.errorHandler.tasks)
+	}
+
+	return nil
+}
+
+func cleanupActivities(tasks map[string]*Task) {
+	for id, task := range tasks {
 		if !activity.IsSingleton(task.activityCfg.Activity) {
 			if needsDisposal, ok := task.activityCfg.Activity.(support.NeedsCleanup); ok {
 				err := needsDisposal.Cleanup()
 				if err != nil {
-					log.RootLogger().Warnf("Error disposing activity '%s' : ", id, err)
+					log.RootLogger().Warnf("Error disposing activity '%s' : %s", id, err.Error())
 				}
 			}
 		}
 	}
-
-	return nil
 }
 
 func (d *Definition) Reconfigure(config *resource.Config) error {
-- 
2.43.0


From 4d81dabf29c7f69fa59812753c6d86436d894463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:52 +0000
Subject: [PATCH 93/93] fix: refuse unsupported state recording modes at
 initialization

---
 action.go          | 2 +-
 ondemand/action.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index 7a92553..83e23eb 100644
--- a/action.go
+++ b/action.go
@@ -95,7 +95,7 @@ func (f *ActionFactory) Initialize(ctx action.InitContext) error {
 			var err error
 			stateRecordingMode, err = state.ToRecordingMode(mode)
 			if err != nil {
-				return nil
+				return err
 			}
 		}
 
diff --git a/ondemand/action.go b/ondemand/action.go
index a04b986..3d8960b 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -109,7 +109,7 @@ func (f *ActionFactory) Initialize(ctx action.InitContext) error {
 			var err error
 			stateRecordingMode, err = state.ToRecordingMode(mode)
 			if err != nil {
-				return nil
+				return err
 			}
 		}
 	}
-- 
2.43.0

