From e8b8dec86327f0600a27cf784c1ffdbb9b565d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 01/47] fix: UpdateAttrs must not hold the instance lock while
 calling SetValue

---
 instance/instance.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/instance/instance.go b/instance/instance.go
index d1c855a..b4b0845 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -274,11 +274,7 @@ func (inst *Instance) SetValue(name string, value interface{}) error {
 
 // UpdateAttrs updates the attributes of the Flow Instance
 func (inst *Instance) UpdateAttrs(attrs map[string]interface{}) {
-	if inst.lock != nil {
-		inst.lock.Lock()
-		defer inst.lock.Unlock()
-	}
-
+	// SetValue takes the instance lock for each attribute
 	if len(attrs) > 0 {
 		for name, value := range attrs {
 			_ = inst.SetValue(name, value)
-- 
2.43.0


From 26a8a976a3c70d7a62dd5c0ed819da12b952b8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 02/47] fix: include the subflows in a flow instance snapshot

---
 instance/ind_instance.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 30df8b7..2a5af51 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -977,12 +977,15 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 	if len(inst.subflows) > 0 {
 		fs.Subflows = make([]*state.Subflow, 0, len(inst.subflows))
 		for id, subflow := range inst.subflows {
-			sfs := state.Subflow{
+			sfs := &state.Subflow{
 				SnapshotBase: &state.SnapshotBase{},
 				Id:           id,
-				TaskId:       subflow.host.(*TaskInst).taskID,
+			}
+			if host, ok := subflow.host.(*TaskInst); ok {
+				sfs.TaskId = host.taskID
 			}
 			populateBaseSnapshot(subflow, sfs.SnapshotBase)
+			fs.Subflows = append(fs.Subflows, sfs)
 		}
 	}
 	return fs
-- 
2.43.0


From 95db91faf8b8f868c8c089966426fbdba9d86bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 03/47] fix: include the pending work items in a flow instance
 snapshot

---
 instance/ind_instance.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 2a5af51..ab4208b 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -988,6 +988,12 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 			fs.Subflows = append(fs.Subflows, sfs)
 		}
 	}
+
+	for e := inst.workItemQueue.List.Front(); e != nil; e = e.Next() {
+		if wi, ok := e.Value.(*WorkItem); ok {
+			fs.WorkQueue = append(fs.WorkQueue, &state.WorkItem{ID: wi.ID, SubflowId: wi.SubFlowID, TaskId: wi.TaskID})
+		}
+	}
 	return fs
 }
 
-- 
2.43.0


From 9c837a397469582799ac6c9f89384dfb15d85651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 04/47] fix: keep a looping task evaluable when its async
 activity repeats

---
 model/simple/dowhilebehavior.go  | 10 ++++++++--
 model/simple/iteratorbehavior.go |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index 11b40ab..5b86ed6 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -63,9 +63,15 @@ func (dw *DoWhileTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model
 		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
-	ctx.SetStatus(model.TaskStatusDone)
 	defer dw.updateDoWhileIndex(ctx)
-	return dw.checkDoWhileCondition(ctx)
+	evalResult, err = dw.checkDoWhileCondition(ctx)
+	if evalResult == model.EvalRepeat {
+		// a task that is done is not evaluated again
+		ctx.SetStatus(model.TaskStatusReady)
+	} else if err == nil {
+		ctx.SetStatus(model.TaskStatusDone)
+	}
+	return evalResult, err
 }
 
 func (dw *DoWhileTaskBehavior) checkDoWhileCondition(ctx model.TaskContext) (evalResult model.EvalResult, err error) {
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index 89a23a3..7e40501 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -161,14 +161,16 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
-	ctx.SetStatus(model.TaskStatusDone)
 
 	itxAttr, _ := ctx.GetWorkingData("_iterator")
 	itx := itxAttr.(Iterator)
 
 	if itx.HasNext() {
+		// a task that is done is not evaluated again
+		ctx.SetStatus(model.TaskStatusReady)
 		return model.EvalRepeat, nil
 	}
+	ctx.SetStatus(model.TaskStatusDone)
 
 	return model.EvalDone, nil
 }
-- 
2.43.0


From a417ae22d01b476928041f771c1ba4a53382b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 05/47] fix: an error handler must only discard the tasks of
 its own flow instance

---
 instance/ind_instance.go |  2 +-
 instance/instance.go     | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index ab4208b..0d0854b 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -681,7 +681,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		// todo: should we clear out the existing workitem queue for items from containerInst?
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
 		//clear existing instances
-		inst.taskInsts = make(map[string]*TaskInst)
+		containerInst.clearTasks()
 
 		taskEntries := flowBehavior.StartErrorHandler(containerInst)
 		err := inst.enterTasks(containerInst, taskEntries)
diff --git a/instance/instance.go b/instance/instance.go
index b4b0845..4a35d1b 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -136,6 +136,18 @@ func (inst *Instance) releaseTask(task *definition.Task) {
 	}
 }
 
+// clearTasks discards all the task instances of this flow instance
+func (inst *Instance) clearTasks() {
+	if inst.lock != nil {
+		inst.lock.Lock()
+		defer inst.lock.Unlock()
+	}
+	for id := range inst.taskInsts {
+		inst.master.changeTracker.TaskRemoved(inst.subflowId, id)
+	}
+	inst.taskInsts = make(map[string]*TaskInst)
+}
+
 /////////////////////////////////////////
 // Instance - activity.Host Implementation
 
-- 
2.43.0


From 5b313c684618fcc0288d77cdac606433e5e30331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 06/47] fix: report a single result for a failed flow with an
 exception assertion

---
 action.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index bb95e26..fc6a600 100644
--- a/action.go
+++ b/action.go
@@ -425,8 +425,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			// The testcase will be passed or failed based on the assertions executed.
 			if hasFlowExceptionAssert {
 				handler.HandleResult(nil, nil)
+			} else {
+				handler.HandleResult(nil, inst.GetError())
 			}
-			handler.HandleResult(nil, inst.GetError())
 		}
 
 		logger.Debugf("Executing flow instance [%s] for event id [%s] - Status: %d", inst.ID(), trigger.GetHandlerEventIdFromContext(ctx), inst.Status())
-- 
2.43.0


From fde6913937b5633815a4eb47576a3b277e8455f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 07/47] fix: report an unsupported state recording mode instead
 of leaving the action half initialized

---
 action.go          | 2 +-
 ondemand/action.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index fc6a600..fa6040e 100644
--- a/action.go
+++ b/action.go
@@ -94,7 +94,7 @@ func (f *ActionFactory) Initialize(ctx action.InitContext) error {
 			var err error
 			stateRecordingMode, err = state.ToRecordingMode(mode)
 			if err != nil {
-				return nil
+				return err
 			}
 		}
 
diff --git a/ondemand/action.go b/ondemand/action.go
index f44798a..55b755c 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -109,7 +109,7 @@ func (f *ActionFactory) Initialize(ctx action.InitContext) error {
 			var err error
 			stateRecordingMode, err = state.ToRecordingMode(mode)
 			if err != nil {
-				return nil
+				return err
 			}
 		}
 	}
-- 
2.43.0


From 574faf2e19ab9b442e758aab8e7a89c0185a33a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 08/47] fix: return the flow instance id, not a method value,
 from an ondemand run

---
 ondemand/action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 55b755c..9684783 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -228,7 +228,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 			results := make(map[string]interface{})
 
-			results["id"] = inst.ID
+			results["id"] = inst.ID()
 
 			handler.HandleResult(results, nil)
 		}
-- 
2.43.0


From 726f72a83f2571eb23a141687628b16dede18eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 09/47] fix: report input mapping errors of an ondemand run

---
 ondemand/action.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 9684783..681d65b 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -287,7 +287,5 @@ func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{
 
 	inScope := data.NewSimpleScope(inputs, nil)
 
-	out, _ := m.Apply(inScope)
-
-	return out, nil
+	return m.Apply(inScope)
 }
-- 
2.43.0


From e35f851f8f46dadc181d15508b0f3a3223608916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 10/47] fix: report a single result when an ondemand run
 reaches the step limit

---
 ondemand/action.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 681d65b..afc4ae3 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -238,6 +238,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			err := inst.DoStepInLoop()
 			if err != nil {
 				handler.HandleResult(nil, err)
+				return
 			}
 		} else {
 			for hasWork && inst.Status() < model.FlowStatusCompleted && stepCount < maxStepCount {
@@ -250,8 +251,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					//ep.GetStateRecorder().RecordStep(inst)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() != model.FlowStatusCompleted {
+			if stepCount == maxStepCount && inst.Status() < model.FlowStatusCompleted {
 				handler.HandleResult(nil, fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
+				return
 			}
 		}
 
-- 
2.43.0


From de3550bc2b696851374bd2d5fddceec50ee692da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 11/47] fix: record the end of a run that is stopped by the
 step limit

---
 action.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index fa6040e..270dc49 100644
--- a/action.go
+++ b/action.go
@@ -381,6 +381,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
 				}
 				handler.HandleResult(nil, err)
+				if stateRecorder != nil {
+					stateRecorder.RecordDone(inst.GetFlowState(inputs))
+				}
 				return
 			}
 		} else {
@@ -393,12 +396,15 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					inst.RecordState(taskStartTime)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() != model.FlowStatusCompleted {
+			if stepCount == maxStepCount && inst.Status() < model.FlowStatusCompleted {
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
 				if inst.TracingContext() != nil {
 					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
 				}
 				handler.HandleResult(nil, err)
+				if stateRecorder != nil {
+					stateRecorder.RecordDone(inst.GetFlowState(inputs))
+				}
 				return
 			}
 		}
-- 
2.43.0


From 2b3543b8ad5e118b05b6bff9a3f1c93ba9285efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 12/47] fix: recording the state of a flow without a recorder
 must not panic

---
 instance/recorder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/instance/recorder.go b/instance/recorder.go
index 7e21f27..7695a17 100644
--- a/instance/recorder.go
+++ b/instance/recorder.go
@@ -20,6 +20,10 @@ func NewStateInstanceRecorder(recorder state.Recorder, mod state.RecordingMode,
 }
 
 func (inst *IndependentInstance) RecordState(strtTime time.Time) error {
+	if inst.instRecorder == nil || inst.instRecorder.externalRecorder == nil {
+		// nothing to record to
+		return nil
+	}
 	if state.RecordSnapshot(inst.instRecorder.mod) {
 		err := inst.instRecorder.externalRecorder.RecordSnapshot(inst.Snapshot())
 		if err != nil {
@@ -29,6 +33,9 @@ func (inst *IndependentInstance) RecordState(strtTime time.Time) error {
 
 	if state.RecordSteps(inst.instRecorder.mod) {
 		currStep := inst.CurrentStep(true)
+		if currStep == nil {
+			return nil
+		}
 		currStep.StartTime = strtTime
 		currStep.EndTime = time.Now().UTC()
 		currStep.Rerun = inst.instRecorder.rerun
-- 
2.43.0


From cf2b1543163ce2880e102308260c1d755ba51699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 13/47] fix: report a panic while evaluating a link expression
 as an error

---
 instance/taskinst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 1a921e4..93fe1e5 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -271,7 +271,7 @@ func (ti *TaskInst) EvalLink(link *definition.Link) (result bool, err error) {
 			ti.logger.Warnf("Unhandled Error evaluating link '%s' : %v\n", link.ID(), r)
 			ti.logger.Debugf("StackTrace: %s", debug.Stack())
 
-			if err != nil {
+			if err == nil {
 				err = fmt.Errorf("%v", r)
 			}
 		}
-- 
2.43.0


From f083482e177a3814efee9adca92ee23bb5586936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 14/47] fix: an interceptor without a coverage object must not
 fail the flow

---
 support/interceptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/support/interceptor.go b/support/interceptor.go
index c8dddb6..cc42640 100644
--- a/support/interceptor.go
+++ b/support/interceptor.go
@@ -38,6 +38,10 @@ type Interceptor struct {
 // Init initializes the FlowInterceptor, usually called after deserialization
 func (pi *Interceptor) Init() {
 
+	if pi.Coverage == nil {
+		pi.Coverage = &Coverage{}
+	}
+
 	numAttrs := len(pi.TaskInterceptors)
 	if numAttrs > 0 {
 
-- 
2.43.0


From 494901ad5fcd15be2305683ddc0d452548b35ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 15/47] fix: guard the model registry lookup

---
 model/registry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/registry.go b/model/registry.go
index 9877296..81c3eb6 100644
--- a/model/registry.go
+++ b/model/registry.go
@@ -49,6 +49,9 @@ func Registered() []*FlowModel {
 
 // Get gets specified FlowModel
 func Get(id string) (*FlowModel, error) {
+	modelsMu.RLock()
+	defer modelsMu.RUnlock()
+
 	if _, ok := models[id]; !ok {
 		return nil, errors.New("model not found")
 	}
-- 
2.43.0


From ef0aaa9ca5df09a5f5793c21b656e0b76c24a046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 16/47] fix: detect gzipped flow files by the gzip magic number

---
 support/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/manager.go b/support/manager.go
index 558495d..125b739 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -91,7 +91,7 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 			logger.Errorf(readErr.Error())
 			return nil, readErr
 		}
-		if readBytes[0] == 0x1f && readBytes[2] == 0x8b {
+		if len(readBytes) > 1 && readBytes[0] == 0x1f && readBytes[1] == 0x8b {
 			flowDefBytes, err = unzip(readBytes)
 			if err != nil {
 				decompressErr := fmt.Errorf("error uncompressing flow with uri '%s', %s", flowURI, err.Error())
-- 
2.43.0


From e5d216bd41030e3ec5c5f509293e3728ba70e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 17/47] fix: report invalid flow uris and undecodable flow
 bodies

---
 support/manager.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/support/manager.go b/support/manager.go
index 125b739..66a352f 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -83,7 +83,10 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 	if strings.HasPrefix(flowURI, uriSchemeFile) {
 		// File URI
 		logger.Infof("Loading Local Flow: %s\n", flowURI)
-		flowFilePath, _ := support.URLStringToFilePath(flowURI)
+		flowFilePath, ok := support.URLStringToFilePath(flowURI)
+		if !ok {
+			return nil, fmt.Errorf("error reading flow with uri '%s', invalid file uri", flowURI)
+		}
 
 		readBytes, err := ioutil.ReadFile(flowFilePath)
 		if err != nil {
@@ -105,6 +108,9 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 
 	} else if strings.HasPrefix(flowURI, uriSchemeHttp) {
 		req, err := http.NewRequest("GET", flowURI, nil)
+		if err != nil {
+			return nil, fmt.Errorf("error getting flow with uri '%s', %s", flowURI, err.Error())
+		}
 		client := &http.Client{}
 		resp, err := client.Do(req)
 		if err != nil {
@@ -158,7 +164,10 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 
 func decodeAndUnzip(encoded string) ([]byte, error) {
 
-	decoded, _ := base64.StdEncoding.DecodeString(encoded)
+	decoded, err := base64.StdEncoding.DecodeString(encoded)
+	if err != nil {
+		return nil, err
+	}
 	return unzip(decoded)
 }
 
-- 
2.43.0


From b1015e33dfc6c9ba9a9b40bfb1e1c6f33dcfc982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 18/47] fix: observing a flow instance must not freeze its
 return data

---
 instance/ind_instance.go |  3 ++-
 instance/instance.go     | 14 ++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 0d0854b..78878f9 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -524,7 +524,8 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 			host, ok := containerInst.host.(*TaskInst)
 
 			if ok {
-				host.SetOutputs(containerInst.returnData)
+				returnData, _ := containerInst.GetReturnData()
+				host.SetOutputs(returnData)
 				// Reset error if any
 				host.returnError = nil
 				//Sub flow done
diff --git a/instance/instance.go b/instance/instance.go
index 4a35d1b..7def051 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -179,27 +179,29 @@ func (inst *Instance) GetError() error {
 
 func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
 
-	if inst.returnData == nil {
+	returnData := inst.returnData
 
-		//construct returnData from instance attributes
+	if returnData == nil {
+
+		//construct returnData from the current instance attributes
 		md := inst.flowDef.Metadata()
 
 		if md != nil && md.Output != nil {
 
-			inst.returnData = make(map[string]interface{})
+			returnData = make(map[string]interface{})
 			for name := range md.Output {
 				piAttr, exists := inst.attrs[name]
 				if exists {
-					inst.returnData[name] = piAttr
+					returnData[name] = piAttr
 				}
 				if md.Output[name].Value() != nil {
-					inst.returnData[name] = md.Output[name].Value()
+					returnData[name] = md.Output[name].Value()
 				}
 			}
 		}
 	}
 
-	return inst.returnData, inst.returnError
+	return returnData, inst.returnError
 }
 
 /////////////////////////////////////////
-- 
2.43.0


From 732d432b89a2d08b9987d1f981e35a2eb27a1bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 19/47] fix: a failed flow instance always carries its error
 and resumes its host task

---
 instance/ind_instance.go | 70 ++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 43 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 78878f9..cd206ea 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -413,11 +413,9 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 			//logger.Debugf("StackTrace: %s", debug.Stack())
 
 			if !taskInst.flowInst.isHandlingError {
-
 				taskInst.appendErrorData(NewActivityEvalError(taskInst.task.Name(), "unhandled", err.Error()))
-				inst.HandleGlobalError(taskInst.flowInst, err)
 			}
-			// else what should we do?
+			inst.HandleGlobalError(taskInst.flowInst, err)
 		}
 	}()
 
@@ -630,30 +628,10 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 		containerInst.releaseTask(taskInst.Task())
 	} else {
 		if containerInst.isHandlingError {
-			//fail
-			containerInst.SetStatus(model.FlowStatusFailed)
-
-			if containerInst != inst.Instance {
-				// Complete SubflowCreated trace
-				if containerInst.tracingCtx != nil {
-					_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
-				}
-
-				//Finished Subflow with error
-				if containerInst != nil && containerInst.master != nil {
-					containerInst.master.RecordState(time.Now().UTC())
-				}
-				// spawned from task instance
-				host, ok := containerInst.host.(*TaskInst)
-
-				if ok {
-					host.returnError = err
-					inst.scheduleEval(host)
-				}
-			} else {
+			if containerInst == inst.Instance {
 				taskInst.appendErrorData(err)
 			}
-
+			inst.failInstance(containerInst, err)
 		} else {
 			taskInst.appendErrorData(err)
 			inst.HandleGlobalError(containerInst, err)
@@ -668,7 +646,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 
 	if containerInst.isHandlingError {
 		//todo: log error information
-		containerInst.SetStatus(model.FlowStatusFailed)
+		inst.failInstance(containerInst, err)
 		return
 	}
 
@@ -694,27 +672,33 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 	} else {
 		// Print error message if no error handler
 		inst.logger.Error(err)
-		containerInst.SetStatus(model.FlowStatusFailed)
+		inst.failInstance(containerInst, err)
+	}
+}
 
-		if containerInst != inst.Instance {
+// failInstance fails the specified flow instance with the error, the task hosting a subflow is
+// scheduled so that it reports the error
+func (inst *IndependentInstance) failInstance(containerInst *Instance, err error) {
 
-			// Complete SubflowCreated trace
-			if containerInst.tracingCtx != nil {
-				_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
-			}
+	containerInst.returnError = err
+	containerInst.SetStatus(model.FlowStatusFailed)
 
-			if containerInst != nil && containerInst.master != nil {
-				containerInst.master.RecordState(time.Now().UTC())
-			}
-			// spawned from task instance
-			host, ok := containerInst.host.(*TaskInst)
+	if containerInst != inst.Instance {
 
-			if ok {
-				host.returnError = err
-				inst.scheduleEval(host)
-			}
-		} else {
-			inst.returnError = err
+		// Complete SubflowCreated trace
+		if containerInst.tracingCtx != nil {
+			_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
+		}
+
+		if containerInst.master != nil {
+			containerInst.master.RecordState(time.Now().UTC())
+		}
+		// spawned from task instance
+		host, ok := containerInst.host.(*TaskInst)
+
+		if ok {
+			host.returnError = err
+			inst.scheduleEval(host)
 		}
 	}
 }
-- 
2.43.0


From 25a2cc00f0c4ce10f1bb858ae3781bd585f28a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 20/47] fix: a failed task carries its error

---
 instance/ind_instance.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index cd206ea..2fe5478 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -607,6 +607,7 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 		_ = trace.GetTracer().FinishTrace(taskInst.traceContext, err)
 	}
 	// Set task status to failed for subflow activity
+	taskInst.returnError = err
 	taskInst.SetStatus(model.TaskStatusFailed)
 
 	inst.addActivityToCoverage(taskInst, err)
-- 
2.43.0


From 1805a9b658f705a26ff87079913039b3c16f8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 21/47] fix: remove a failed subflow from its parent

---
 instance/ind_instance.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 2fe5478..563315a 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -701,6 +701,13 @@ func (inst *IndependentInstance) failInstance(containerInst *Instance, err error
 			host.returnError = err
 			inst.scheduleEval(host)
 		}
+
+		// flow has failed so remove it
+		if inst.subFlowLock != nil {
+			inst.subFlowLock.Lock()
+			defer inst.subFlowLock.Unlock()
+		}
+		delete(inst.subflows, containerInst.subflowId)
 	}
 }
 
-- 
2.43.0


From 0669338617aaece30db669cdb5514f8bed96bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 22/47] fix: an error handler without tasks must not swallow
 the error

---
 instance/ind_instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 563315a..0d059f8 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -656,7 +656,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 	flowBehavior := inst.flowModel.GetFlowBehavior()
 
 	//not currently handling error, so check if it has an error handler
-	if containerInst.flowDef.GetErrorHandler() != nil {
+	if eh := containerInst.flowDef.GetErrorHandler(); eh != nil && len(eh.Tasks()) > 0 {
 
 		// todo: should we clear out the existing workitem queue for items from containerInst?
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
-- 
2.43.0


From f673c4e6d91cf4be26a53e04007a62ad9b9ce718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 23/47] fix: an error in the settings of a task must fail the
 task

---
 instance/ind_instance.go | 10 +++++-----
 instance/taskinst.go     |  2 ++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 0d059f8..aa0e973 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -422,7 +422,9 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 	var err error
 	var evalResult model.EvalResult
 
-	if taskInst.status == model.TaskStatusWaiting {
+	if taskInst.settingsError != nil {
+		err = taskInst.settingsError
+	} else if taskInst.status == model.TaskStatusWaiting {
 		evalResult, err = behavior.PostEval(taskInst)
 	} else if taskInst.status == model.TaskStatusSkipped || taskInst.status == model.TaskStatusDone {
 		return
@@ -729,10 +731,8 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		taskInst.id = taskInst.taskID
 		enterResult := behavior.Enter(taskInst)
 		if enterResult == model.EREval {
-			err := applySettingsMapper(taskInst)
-			if err != nil {
-				return err
-			}
+			// an error is handled when the task is executed
+			taskInst.settingsError = applySettingsMapper(taskInst)
 			taskInst.scheduled = true
 			inst.scheduleEval(taskInst)
 		} else if enterResult == model.ERSkip {
diff --git a/instance/taskinst.go b/instance/taskinst.go
index 93fe1e5..12b129d 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -69,6 +69,8 @@ type TaskInst struct {
 	inputs   map[string]interface{}
 	outputs  map[string]interface{}
 	settings map[string]interface{}
+	// error encountered when applying the settings mapper, if any
+	settingsError error
 
 	logger       log.Logger
 	returnError  error
-- 
2.43.0


From de61508cc966de88b5b045e179c345cdc046ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 24/47] fix: enter every successor of a task before completing
 the skipped ones

---
 instance/ind_instance.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index aa0e973..8716bd9 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -714,18 +714,36 @@ func (inst *IndependentInstance) failInstance(containerInst *Instance, err error
 }
 
 func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []*model.TaskEntry) error {
+	skippedTasks := inst.scheduleEntries(activeInst, taskEntries)
+
+	// the tasks to skip are completed once all the entries have been entered, so that the flow isn't
+	// considered done before that
+	for _, taskInst := range skippedTasks {
+		if activeInst.Status() != model.FlowStatusActive {
+			break
+		}
+		inst.handleTaskDone(inst.flowModel.GetTaskBehavior(taskInst.Task().TypeID()), taskInst)
+	}
+
+	return nil
+}
+
+// scheduleEntries enters the tasks and schedules the ones that are ready, it returns the tasks to skip
+func (inst *IndependentInstance) scheduleEntries(activeInst *Instance, taskEntries []*model.TaskEntry) []*TaskInst {
 	if inst.actSchedLock != nil {
 		// Lock is set only when concurrent executaion is enabled
 		inst.actSchedLock.Lock()
 		defer inst.actSchedLock.Unlock()
 	}
 
+	var skippedTasks []*TaskInst
+
 	for _, taskEntry := range taskEntries {
 		//logger.Debugf("EnterTask - TaskEntry: %v", taskEntry)
 		behavior := inst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
 		taskInst, _ := activeInst.FindOrCreateTaskInst(taskEntry.Task)
-		if inst.concurrentExec && taskInst.scheduled {
-			//task is already scheduled by other goroutine. Lets skip this task
+		if taskInst.scheduled {
+			//task is already scheduled by another link or goroutine. Lets skip this task
 			continue
 		}
 		taskInst.id = taskInst.taskID
@@ -736,11 +754,12 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 			taskInst.scheduled = true
 			inst.scheduleEval(taskInst)
 		} else if enterResult == model.ERSkip {
-			inst.handleTaskDone(behavior, taskInst)
+			taskInst.scheduled = true
+			skippedTasks = append(skippedTasks, taskInst)
 		}
 	}
 
-	return nil
+	return skippedTasks
 }
 
 func (inst *IndependentInstance) addActivityToCoverage(taskInst *TaskInst, err error) {
-- 
2.43.0


From dea1089d88baa1a98f2f75c239b3b6330e322a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 25/47] fix: guard the state shared by concurrently executing
 tasks

---
 instance/ind_instance.go | 10 +++++++---
 instance/taskinst.go     |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 8716bd9..0cf4749 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"strconv"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/project-flogo/flow/state"
@@ -25,7 +26,7 @@ type IndependentInstance struct {
 	id            string
 	stepID        int
 	workItemQueue *support.SyncQueue //todo: change to faster non-threadsafe queue
-	wiCounter     int
+	wiCounter     int64
 
 	trackingChanges bool
 	changeTracker   ChangeTracker
@@ -115,6 +116,9 @@ func (inst *IndependentInstance) newEmbeddedInstance(taskInst *TaskInst, flowURI
 	embeddedInst.linkInsts = make(map[int]*LinkInst)
 	embeddedInst.flowURI = flowURI
 	embeddedInst.logger = inst.logger
+	if inst.concurrentExec {
+		embeddedInst.lock = &sync.RWMutex{}
+	}
 
 	if trace.Enabled() {
 		tc, _ := trace.GetTracer().StartTrace(embeddedInst.SpanConfig(), taskInst.traceContext) //TODO handle error
@@ -386,9 +390,9 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 
 func (inst *IndependentInstance) scheduleEval(taskInst *TaskInst) {
 
-	inst.wiCounter++
+	id := atomic.AddInt64(&inst.wiCounter, 1)
 
-	workItem := NewWorkItem(inst.wiCounter, taskInst)
+	workItem := NewWorkItem(int(id), taskInst)
 	inst.logger.Debugf("Scheduling task '%s'", taskInst.task.ID())
 
 	inst.workItemQueue.Push(workItem)
diff --git a/instance/taskinst.go b/instance/taskinst.go
index 12b129d..274fac7 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -585,7 +585,7 @@ func (ti *TaskInst) handleAccumulation() error {
 	attrName := "_A." + ti.Task().ID()
 	var outputs []interface{}
 
-	if attr, ok := ti.flowInst.attrs[attrName]; ok {
+	if attr, ok := ti.flowInst.GetValue(attrName); ok {
 		var err error
 		outputs, err = coerce.ToArray(attr)
 		if err != nil {
-- 
2.43.0


From 2fb487a94fa898a45a3a684867e36052b0504353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 26/47] fix: the step limit of a concurrent flow is off by one

---
 instance/ind_instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 0cf4749..7f773ef 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -348,7 +348,7 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 		item, ok := inst.workItemQueue.Pop()
 		if ok {
 			wi := item.(*WorkItem)
-			if stepCount > util.GetMaxStepCount() {
+			if stepCount >= util.GetMaxStepCount() {
 				return fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), util.GetMaxStepCount(), util.FlogoStepCountEnv)
 			}
 			inst.ResetChanges()
-- 
2.43.0


From db20e4244b0cb41ec59ace7968549787068875ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 27/47] fix: restore the order of the work queue of a
 serialized flow instance

---
 instance/instance_ser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 2f56db3..9e062c6 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -113,8 +113,9 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 
 	inst.workItemQueue = support.NewSyncQueue()
 
-	for _, workItem := range ser.WorkQueue {
-
+	// items are pushed in front of the queue, so start with the last one to restore its order
+	for i := len(ser.WorkQueue) - 1; i >= 0; i-- {
+		workItem := ser.WorkQueue[i]
 		taskInsts := inst.taskInsts
 
 		if workItem.SubFlowID > 0 {
-- 
2.43.0


From 27529f4f2ba1c5fe27af0014678ab6708333d3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 28/47] fix: recorded changes must name the subflow they belong
 to

---
 instance/instance_chg.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index 6a43bf3..15446f0 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -135,7 +135,7 @@ func (sct *SimpleChangeTracker) SetStatus(subflowId int, status model.FlowStatus
 	}
 	fc, exists := sct.currentStep.FlowChanges[subflowId]
 	if !exists {
-		fc = &change.Flow{}
+		fc = &change.Flow{SubflowId: subflowId}
 		sct.currentStep.FlowChanges[subflowId] = fc
 	}
 
@@ -149,7 +149,7 @@ func (sct *SimpleChangeTracker) AttrChange(subflowId int, name string, value int
 	}
 	fc, exists := sct.currentStep.FlowChanges[subflowId]
 	if !exists {
-		fc = &change.Flow{}
+		fc = &change.Flow{SubflowId: subflowId}
 		sct.currentStep.FlowChanges[subflowId] = fc
 	}
 
@@ -232,9 +232,10 @@ func (sct *SimpleChangeTracker) SubflowDone(subflow *Instance) {
 				fc.ReturnData = util.DeepCopyMap(returnData)
 			} else {
 				fc := &change.Flow{
-					NewFlow: false,
-					FlowURI: subflow.flowURI,
-					Status:  int(subflow.status),
+					NewFlow:   false,
+					FlowURI:   subflow.flowURI,
+					SubflowId: subflow.subflowId,
+					Status:    int(subflow.status),
 				}
 				returnData, _ := subflow.GetReturnData()
 				fc.ReturnData = util.DeepCopyMap(returnData)
@@ -251,6 +252,7 @@ func (sct *SimpleChangeTracker) WorkItemAdded(wi *WorkItem) {
 	}
 	qc := getQueueChange(sct.currentStep, wi.ID)
 	qc.TaskId = wi.TaskID
+	qc.SubflowId = wi.SubFlowID
 }
 
 func (sct *SimpleChangeTracker) WorkItemRemoved(wi *WorkItem) {
@@ -260,6 +262,7 @@ func (sct *SimpleChangeTracker) WorkItemRemoved(wi *WorkItem) {
 	}
 	qc := getQueueChange(sct.currentStep, wi.ID)
 	qc.TaskId = wi.TaskID
+	qc.SubflowId = wi.SubFlowID
 	qc.ChgType = change.Delete
 }
 
@@ -370,7 +373,7 @@ func getTaskChange(step *state.Step, subflowId int, taskId string, flowname stri
 
 	fc, exists := step.FlowChanges[subflowId]
 	if !exists {
-		fc = &change.Flow{TaskId: taskId, FlowURI: flowname}
+		fc = &change.Flow{SubflowId: subflowId, TaskId: taskId, FlowURI: flowname}
 		step.FlowChanges[subflowId] = fc
 	} else {
 		fc.TaskId = taskId
@@ -396,7 +399,7 @@ func getLinkChange(step *state.Step, subflowId int, linkId int) *change.Link {
 
 	fc, exists := step.FlowChanges[subflowId]
 	if !exists {
-		fc = &change.Flow{}
+		fc = &change.Flow{SubflowId: subflowId}
 		step.FlowChanges[subflowId] = fc
 	}
 
-- 
2.43.0


From c3204da03cc48c68b38f02e3c6dcd37bc5bb071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 29/47] fix: include the subflows in a snapshot built from
 steps

---
 state/util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/state/util.go b/state/util.go
index 6fcce94..5b2af87 100644
--- a/state/util.go
+++ b/state/util.go
@@ -38,6 +38,7 @@ func StepsToSnapshot(flowId string, steps []*Step) *Snapshot {
 							Id:           flowChange.SubflowId,
 							TaskId:       flowChange.TaskId,
 						}
+						subflows[flowChange.SubflowId] = subflow
 					}
 					UpdateFlow(subflow.SnapshotBase, flowChange)
 				} else {
-- 
2.43.0


From 665e07f5f1a4a58afab3b270758255ba2b578203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 30/47] fix: a snapshot built from steps holds the latest
 attribute values

---
 state/util.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/state/util.go b/state/util.go
index 5b2af87..bb9b956 100644
--- a/state/util.go
+++ b/state/util.go
@@ -90,10 +90,12 @@ func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue, first *int) bool
 func UpdateFlow(s *SnapshotBase, change *change.Flow) {
 
 	if len(change.Attrs) > 0 {
+		// changes are applied from the most recent one, so an attribute that is set is up to date
 		if s.Attrs == nil {
-			s.Attrs = change.Attrs
-		} else {
-			for name, value := range change.Attrs {
+			s.Attrs = make(map[string]interface{}, len(change.Attrs))
+		}
+		for name, value := range change.Attrs {
+			if _, exists := s.Attrs[name]; !exists {
 				s.Attrs[name] = value
 			}
 		}
-- 
2.43.0


From 667fe360ba02f99335fc2b331f2359a9d4f6585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 31/47] fix: rebuild the work queue of a snapshot from the
 items that were not removed

---
 state/util.go | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/state/util.go b/state/util.go
index bb9b956..e3f383c 100644
--- a/state/util.go
+++ b/state/util.go
@@ -1,6 +1,10 @@
 package state
 
-import "github.com/project-flogo/flow/state/change"
+import (
+	"sort"
+
+	"github.com/project-flogo/flow/state/change"
+)
 
 type FlowInfo struct {
 	Id                 string                 `json:"id"`
@@ -22,8 +26,7 @@ func StepsToSnapshot(flowId string, steps []*Step) *Snapshot {
 	fs := &Snapshot{Id: flowId, SnapshotBase: &SnapshotBase{}}
 
 	subflows := make(map[int]*Subflow)
-	first := -1
-	queueDone := false
+	removed := make(map[int]bool)
 
 	for i := len(steps) - 1; i >= 0; i-- {
 		step := steps[i]
@@ -47,12 +50,15 @@ func StepsToSnapshot(flowId string, steps []*Step) *Snapshot {
 				}
 			}
 		}
-		if len(step.QueueChanges) > 0 && !queueDone {
-			for id, queueChg := range step.QueueChanges {
-				queueDone = UpdateQueue(fs, id, queueChg, &first)
-				if queueDone {
-					break
-				}
+		if len(step.QueueChanges) > 0 {
+			// most recent items first
+			ids := make([]int, 0, len(step.QueueChanges))
+			for id := range step.QueueChanges {
+				ids = append(ids, id)
+			}
+			sort.Sort(sort.Reverse(sort.IntSlice(ids)))
+			for _, id := range ids {
+				UpdateQueue(fs, id, step.QueueChanges[id], removed)
 			}
 		}
 
@@ -67,24 +73,20 @@ func StepsToSnapshot(flowId string, steps []*Step) *Snapshot {
 	return fs
 }
 
-func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue, first *int) bool {
+// UpdateQueue adds the item to the work queue, unless a more recent step removed it
+func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue, removed map[int]bool) {
 
-	if *first == -1 && queueChg.ChgType == change.Delete {
-		*first = id
-	} else {
-		if id == *first {
-			return true
-		}
+	if queueChg.ChgType == change.Delete {
+		removed[id] = true
 	}
 
-	if queueChg.ChgType == change.Add {
+	if queueChg.ChgType == change.Add && !removed[id] {
 		fs.WorkQueue = append(fs.WorkQueue, &WorkItem{
 			ID:        id,
 			SubflowId: queueChg.SubflowId,
 			TaskId:    queueChg.TaskId,
 		})
 	}
-	return false
 }
 
 func UpdateFlow(s *SnapshotBase, change *change.Flow) {
-- 
2.43.0


From b6bbeb5d712a72f1eeca994048971279ede8dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 32/47] fix: application info accessors used by every flow must
 not write shared variables

---
 support/env.go | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/support/env.go b/support/env.go
index 540332f..974afc9 100644
--- a/support/env.go
+++ b/support/env.go
@@ -20,13 +20,8 @@ const (
 	PrioritizeExprLinkDefault bool = false
 )
 
-var username, hostName, appName, appVersion string
-
 func GetUserName() string {
-	if len(username) > 0 {
-		return username
-	}
-	username = os.Getenv(UserName)
+	username := os.Getenv(UserName)
 	if len(username) > 0 {
 		return username
 	}
@@ -34,10 +29,7 @@ func GetUserName() string {
 }
 
 func GetHostId() string {
-	if len(hostName) > 0 {
-		return hostName
-	}
-	hostName = os.Getenv(HostName)
+	hostName := os.Getenv(HostName)
 	if len(hostName) > 0 {
 		return hostName
 	}
@@ -46,10 +38,7 @@ func GetHostId() string {
 }
 
 func GetAppName() string {
-	if len(appName) > 0 {
-		return appName
-	}
-	appName = os.Getenv(AppName)
+	appName := os.Getenv(AppName)
 	if len(appName) <= 0 {
 		return engine.GetAppName()
 	}
@@ -57,10 +46,7 @@ func GetAppName() string {
 }
 
 func GetAppVerison() string {
-	if len(appVersion) > 0 {
-		return appVersion
-	}
-	appVersion = os.Getenv(AppVersion)
+	appVersion := os.Getenv(AppVersion)
 	if len(appVersion) <= 0 {
 		return engine.GetAppVersion()
 	}
-- 
2.43.0


From 4fdecb7472b4725d1b1c5ad0eab090f8113b3f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 33/47] fix: report a failed resume to the client of the flow
 tester

---
 tester/service.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tester/service.go b/tester/service.go
index 3b5b69a..1da8132 100644
--- a/tester/service.go
+++ b/tester/service.go
@@ -207,6 +207,7 @@ func (ft *RestFlowTester) ResumeFlow(w http.ResponseWriter, r *http.Request, _ h
 	defer func() {
 		if r := recover(); r != nil {
 			logger.Error("Unable to resume flow, make sure definition registered")
+			http.Error(w, "unable to resume flow", http.StatusInternalServerError)
 		}
 	}()
 
-- 
2.43.0


From 3cebe2b4bb4a79ff3a61e00de51f04f6948db134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 34/47] fix: reject restart and resume requests without a state

---
 tester/request.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tester/request.go b/tester/request.go
index f2a0af1..8053349 100644
--- a/tester/request.go
+++ b/tester/request.go
@@ -2,6 +2,7 @@ package tester
 
 import (
 	"context"
+	"errors"
 
 	"github.com/project-flogo/core/action"
 	"github.com/project-flogo/core/engine/runner"
@@ -93,6 +94,10 @@ func (rp *RequestProcessor) RestartFlow(restartRequest *RestartRequest) (results
 
 	logger.Debugf("Tester restarting flow")
 
+	if restartRequest.InitialState == nil {
+		return nil, errors.New("unable to restart flow, initial state not provided")
+	}
+
 	//todo share action, for now add flowUri to settings
 	settings := map[string]interface{}{"flowURI":restartRequest.InitialState.FlowURI()}
 
@@ -130,6 +135,10 @@ func (rp *RequestProcessor) ResumeFlow(resumeRequest *ResumeRequest) (results ma
 
 	logger.Debugf("Tester resuming flow")
 
+	if resumeRequest.State == nil {
+		return nil, errors.New("unable to resume flow, state not provided")
+	}
+
 	//todo share action, for now add flowUri to settings
 	settings := map[string]interface{}{"flowURI":resumeRequest.State.FlowURI()}
 
-- 
2.43.0


From fdbf1931a0ac900afd2b07ba7903b7170e6fb394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 35/47] fix: a flow restarted beyond the step limit must report
 that it did not run

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index 270dc49..f95e65d 100644
--- a/action.go
+++ b/action.go
@@ -396,7 +396,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					inst.RecordState(taskStartTime)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() < model.FlowStatusCompleted {
+			if stepCount >= maxStepCount && inst.Status() < model.FlowStatusCompleted {
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
 				if inst.TracingContext() != nil {
 					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
-- 
2.43.0


From aa1e5239b82c313dfc05ff21b7fa759b9d9aacfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 36/47] fix: do not record the start of a run that is rejected

---
 action.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/action.go b/action.go
index f95e65d..b9b1a16 100644
--- a/action.go
+++ b/action.go
@@ -302,6 +302,18 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		instance.ApplyExecOptions(inst, execOptions)
 	}
 
+	eventID := trigger.GetHandlerEventIdFromContext(ctx)
+	if trace.Enabled() {
+		tc, err := trace.GetTracer().StartTrace(inst.SpanConfig(), trace.ExtractTracingContext(ctx))
+		if err != nil {
+			return err
+		}
+		if eventID != "" {
+			tc.SetTag("flogo_event_id", eventID)
+		}
+		inst.SetTracingContext(tc)
+	}
+
 	//Update flow starting time
 	inst.UpdateStartTime()
 	if stateRecorder != nil {
@@ -310,21 +322,10 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		stateRecorder.RecordStart(flowState)
 	}
 
-	eventID := trigger.GetHandlerEventIdFromContext(ctx)
 	if eventID != "" {
 		// Add eventId to the instance
 		_ = inst.SetValue(instance.EventIdAttr, eventID)
 	}
-	if trace.Enabled() {
-		tc, err := trace.GetTracer().StartTrace(inst.SpanConfig(), trace.ExtractTracingContext(ctx))
-		if err != nil {
-			return err
-		}
-		if eventID != "" {
-			tc.SetTag("flogo_event_id", eventID)
-		}
-		inst.SetTracingContext(tc)
-	}
 
 	//todo how do we check if debug is enabled?
 	//logInputs(inputs)
-- 
2.43.0


From f87343834969b92be2b2cae4a95565ca5fbdc762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 37/47] fix: an on-demand flow must report its own result, and
 the step limit only when it stopped it

---
 ondemand/action.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index afc4ae3..c51ed36 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -236,7 +236,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		if instance.IsConcurrentTaskExcutionEnabled() {
 			logger.Info("Concurrent task execution feature is enabled. All independent activities will run concurrently.")
 			err := inst.DoStepInLoop()
-			if err != nil {
+			if err != nil && inst.Status() != model.FlowStatusCompleted {
 				handler.HandleResult(nil, err)
 				return
 			}
@@ -251,7 +251,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					//ep.GetStateRecorder().RecordStep(inst)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() < model.FlowStatusCompleted {
+			if stepCount >= maxStepCount && inst.Status() < model.FlowStatusCompleted {
 				handler.HandleResult(nil, fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
 				return
 			}
-- 
2.43.0


From 8c05a5b2e65f4cf711f9bb49d7e4675f07ceb93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 38/47] fix: read the attributes of a flow for its return data
 with the flow's lock held

---
 instance/flowevents.go   | 2 +-
 instance/instance.go     | 9 +++++++++
 instance/instance_chg.go | 8 ++++----
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/instance/flowevents.go b/instance/flowevents.go
index 764886d..64b8835 100644
--- a/instance/flowevents.go
+++ b/instance/flowevents.go
@@ -91,7 +91,7 @@ func postFlowEvent(inst *Instance) {
 
 		if fe.status != event.CREATED {
 			attrs := inst.attrs
-			outData, _ := inst.GetReturnData()
+			outData, _ := inst.buildReturnData()
 			if attrs != nil && len(attrs) > 0 {
 				for name, attVal := range attrs {
 					if outData != nil && outData[name] != nil {
diff --git a/instance/instance.go b/instance/instance.go
index 7def051..d91b5b3 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -178,6 +178,15 @@ func (inst *Instance) GetError() error {
 }
 
 func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	return inst.buildReturnData()
+}
+
+// buildReturnData determines the data the flow returns, the caller holds the instance's lock
+func (inst *Instance) buildReturnData() (map[string]interface{}, error) {
 
 	returnData := inst.returnData
 
diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index 15446f0..1a2e921 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -174,6 +174,8 @@ func (sct *SimpleChangeTracker) FlowCreated(flow *IndependentInstance) {
 }
 
 func (sct *SimpleChangeTracker) FlowDone(flow *IndependentInstance) {
+	// the flow records its changes while it holds its lock, so don't use it with the tracker's lock held
+	returnData, _ := flow.GetReturnData()
 	if sct.lock != nil {
 		defer sct.lock.Unlock()
 		sct.lock.Lock()
@@ -184,7 +186,6 @@ func (sct *SimpleChangeTracker) FlowDone(flow *IndependentInstance) {
 		if flowC != nil {
 			flowC.FlowURI = flow.flowURI
 			flowC.Status = int(flow.status)
-			returnData, _ := flow.GetReturnData()
 			flowC.ReturnData = util.DeepCopyMap(returnData)
 		} else {
 			fc := &change.Flow{
@@ -192,7 +193,6 @@ func (sct *SimpleChangeTracker) FlowDone(flow *IndependentInstance) {
 				FlowURI: flow.flowURI,
 				Status:  int(flow.status),
 			}
-			returnData, _ := flow.GetReturnData()
 			fc.ReturnData = util.DeepCopyMap(returnData)
 			sct.currentStep.FlowChanges[flow.subflowId] = fc
 		}
@@ -217,6 +217,8 @@ func (sct *SimpleChangeTracker) SubflowCreated(subflow *Instance) {
 }
 
 func (sct *SimpleChangeTracker) SubflowDone(subflow *Instance) {
+	// the flow records its changes while it holds its lock, so don't use it with the tracker's lock held
+	returnData, _ := subflow.GetReturnData()
 	if sct.lock != nil {
 		defer sct.lock.Unlock()
 		sct.lock.Lock()
@@ -228,7 +230,6 @@ func (sct *SimpleChangeTracker) SubflowDone(subflow *Instance) {
 			if fc != nil {
 				fc.FlowURI = subflow.flowURI
 				fc.Status = int(subflow.status)
-				returnData, _ := subflow.GetReturnData()
 				fc.ReturnData = util.DeepCopyMap(returnData)
 			} else {
 				fc := &change.Flow{
@@ -237,7 +238,6 @@ func (sct *SimpleChangeTracker) SubflowDone(subflow *Instance) {
 					SubflowId: subflow.subflowId,
 					Status:    int(subflow.status),
 				}
-				returnData, _ := subflow.GetReturnData()
 				fc.ReturnData = util.DeepCopyMap(returnData)
 				sct.currentStep.FlowChanges[subflow.subflowId] = fc
 			}
-- 
2.43.0


From b1d5e034d90475ca5bfd886cee7c0aeb4b3555ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:57 +0000
Subject: [PATCH 39/47] fix: loading a flow must not look up the metadata of
 its subflows while the flow manager is locked

---
 definition/mapper.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/definition/mapper.go b/definition/mapper.go
index ba99311..4877502 100644
--- a/definition/mapper.go
+++ b/definition/mapper.go
@@ -22,20 +22,23 @@ func GetMapperFactory() mapper.Factory {
 
 func NewDefaultActivityOutputMapper(task *Task) mapper.Mapper {
 	attrNS := "_A." + task.ID() + "."
-	return &defaultActivityOutputMapper{attrNS: attrNS, metadata: task.activityCfg.Activity.Metadata()}
+	return &defaultActivityOutputMapper{attrNS: attrNS, activity: task.activityCfg.Activity}
 }
 
 // BasicMapper is a simple object holding and executing mappings
 type defaultActivityOutputMapper struct {
 	attrNS   string
-	metadata *activity.Metadata
+	activity activity.Activity
 }
 
 func (m *defaultActivityOutputMapper) Apply(scope data.Scope) (map[string]interface{}, error) {
 
-	if m.metadata.IOMetadata != nil {
-		output := make(map[string]interface{}, len(m.metadata.Output))
-		for name := range m.metadata.Output {
+	// the metadata of a subflow activity is that of its flow, which can't be looked up while a flow is being loaded
+	md := m.activity.Metadata()
+
+	if md.IOMetadata != nil {
+		output := make(map[string]interface{}, len(md.Output))
+		for name := range md.Output {
 
 			value, ok := scope.GetValue(name)
 			if ok {
-- 
2.43.0


From da4f8e846fee68d7b4da2cbb93d21b30d7db58a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 40/47] fix: guard the state of a flow with its locks when it
 is started and when a snapshot of it is taken

---
 instance/ind_instance.go | 49 ++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 7f773ef..586cbec 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -220,6 +220,31 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 		_ = toStart.SetValue(flowCtxPrefix+parentFlowId, "")
 	}
 
+	inst.initAttrs(toStart, startAttrs)
+
+	toStart.SetStatus(model.FlowStatusActive)
+
+	flowBehavior := inst.flowModel.GetFlowBehavior()
+	ok, taskEntries := flowBehavior.Start(toStart)
+
+	if ok {
+		err := inst.enterTasks(toStart, taskEntries)
+		if err != nil {
+			//todo review how we should handle an error encountered here
+			log.RootLogger().Errorf("encountered error when entering tasks: %v", err)
+		}
+	}
+
+	return ok
+}
+
+// initAttrs sets the attributes of a flow that is about to start
+func (inst *IndependentInstance) initAttrs(toStart *Instance, startAttrs map[string]interface{}) {
+	if toStart.lock != nil {
+		toStart.lock.Lock()
+		defer toStart.lock.Unlock()
+	}
+
 	md := toStart.flowDef.Metadata()
 
 	if md != nil && md.Input != nil {
@@ -245,21 +270,6 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 		toStart.attrs[name] = value
 		inst.changeTracker.AttrChange(toStart.subflowId, name, value)
 	}
-
-	toStart.SetStatus(model.FlowStatusActive)
-
-	flowBehavior := inst.flowModel.GetFlowBehavior()
-	ok, taskEntries := flowBehavior.Start(toStart)
-
-	if ok {
-		err := inst.enterTasks(toStart, taskEntries)
-		if err != nil {
-			//todo review how we should handle an error encountered here
-			log.RootLogger().Errorf("encountered error when entering tasks: %v", err)
-		}
-	}
-
-	return ok
 }
 
 func (inst *IndependentInstance) ApplyPatch(patch *flowsupport.Patch) {
@@ -990,6 +1000,11 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 
 	populateBaseSnapshot(inst.Instance, fs.SnapshotBase)
 
+	if inst.subFlowLock != nil {
+		inst.subFlowLock.Lock()
+		defer inst.subFlowLock.Unlock()
+	}
+
 	if len(inst.subflows) > 0 {
 		fs.Subflows = make([]*state.Subflow, 0, len(inst.subflows))
 		for id, subflow := range inst.subflows {
@@ -1014,6 +1029,10 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 }
 
 func populateBaseSnapshot(inst *Instance, base *state.SnapshotBase) {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
 
 	base.FlowURI = inst.flowURI
 	base.Status = int(inst.status)
-- 
2.43.0


From a7dbcc319459b4571472f2549065b6a8ef9a278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 41/47] fix: record the value of an input a flow is started
 with, not its declaration

---
 instance/ind_instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 586cbec..e0c1b29 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -255,7 +255,7 @@ func (inst *IndependentInstance) initAttrs(toStart *Instance, startAttrs map[str
 		for name, value := range md.Input {
 			if value != nil {
 				toStart.attrs[name] = value.Value()
-				inst.changeTracker.AttrChange(toStart.subflowId, name, value)
+				inst.changeTracker.AttrChange(toStart.subflowId, name, value.Value())
 			} else {
 				toStart.attrs[name] = nil
 			}
-- 
2.43.0


From 46e310f13aa217164edb8cbcdaf127fc68844a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 42/47] fix: record the attribute changes of a flow whenever
 its steps are recorded

---
 instance/ind_instance.go | 7 +------
 instance/instance.go     | 4 +---
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index e0c1b29..eade0aa 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -3,7 +3,6 @@ package instance
 import (
 	"errors"
 	"fmt"
-	"os"
 	"strconv"
 	"sync"
 	"sync/atomic"
@@ -28,8 +27,7 @@ type IndependentInstance struct {
 	workItemQueue *support.SyncQueue //todo: change to faster non-threadsafe queue
 	wiCounter     int64
 
-	trackingChanges bool
-	changeTracker   ChangeTracker
+	changeTracker ChangeTracker
 
 	flowModel   *model.FlowModel
 	patch       *flowsupport.Patch
@@ -73,9 +71,6 @@ func NewIndependentInstance(instanceID string, flowURI string, flow *definition.
 	inst.logger = logger
 
 	inst.status = model.FlowStatusNotStarted
-	if os.Getenv("FLOGO_FLOW_SM_ENDPOINT") != "" {
-		inst.trackingChanges = true
-	}
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, 0)
 	inst.changeTracker.FlowCreated(inst)
 
diff --git a/instance/instance.go b/instance/instance.go
index d91b5b3..c96627f 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -286,9 +286,7 @@ func (inst *Instance) SetValue(name string, value interface{}) error {
 
 	inst.attrs[name] = value
 
-	if inst.master.trackingChanges {
-		inst.master.changeTracker.AttrChange(inst.subflowId, name, value)
-	}
+	inst.master.changeTracker.AttrChange(inst.subflowId, name, value)
 
 	return nil
 }
-- 
2.43.0


From ef42a5ef8e56731822178960a8e9dc2d464a0d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 43/47] fix: loading a flow must not change the shared mapper
 factory

---
 definition/mapper.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/definition/mapper.go b/definition/mapper.go
index 4877502..18df512 100644
--- a/definition/mapper.go
+++ b/definition/mapper.go
@@ -15,7 +15,8 @@ func SetMapperFactory(factory mapper.Factory) {
 func GetMapperFactory() mapper.Factory {
 
 	if mapperFactory == nil {
-		mapperFactory = mapper.NewFactory(GetDataResolver())
+		// flows may be loaded concurrently, so don't keep it
+		return mapper.NewFactory(GetDataResolver())
 	}
 	return mapperFactory
 }
-- 
2.43.0


From fdbe6122f721f331155244d95419933af00a1c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:35 +0000
Subject: [PATCH 44/47] fix: a snapshot built from steps leaves out the tasks
 and links that were removed

The steps are applied from the oldest to the most recent one, so that what a later step removes is gone.
---
 state/util.go | 157 ++++++++++++++++++++++----------------------------
 1 file changed, 68 insertions(+), 89 deletions(-)

diff --git a/state/util.go b/state/util.go
index e3f383c..1c83676 100644
--- a/state/util.go
+++ b/state/util.go
@@ -21,89 +21,81 @@ type FlowInfo struct {
 	OriginalInstanceId string                 `json:"originalInstanceId"`
 }
 
+// StepsToSnapshot rebuilds the state of a flow from its steps, which are ordered from the oldest one to the most recent one
 func StepsToSnapshot(flowId string, steps []*Step) *Snapshot {
 
 	fs := &Snapshot{Id: flowId, SnapshotBase: &SnapshotBase{}}
 
 	subflows := make(map[int]*Subflow)
-	removed := make(map[int]bool)
-
-	for i := len(steps) - 1; i >= 0; i-- {
-		step := steps[i]
-		if len(step.FlowChanges) > 0 {
-			for _, flowChange := range step.FlowChanges {
-
-				if flowChange.SubflowId > 0 {
-					subflow, exists := subflows[flowChange.SubflowId]
-					if !exists {
-						subflow = &Subflow{
-							SnapshotBase: &SnapshotBase{},
-							Id:           flowChange.SubflowId,
-							TaskId:       flowChange.TaskId,
-						}
-						subflows[flowChange.SubflowId] = subflow
+
+	for _, step := range steps {
+		for _, flowChange := range step.FlowChanges {
+
+			if flowChange.SubflowId > 0 {
+				subflow, exists := subflows[flowChange.SubflowId]
+				if !exists {
+					subflow = &Subflow{
+						SnapshotBase: &SnapshotBase{},
+						Id:           flowChange.SubflowId,
+						TaskId:       flowChange.TaskId,
 					}
-					UpdateFlow(subflow.SnapshotBase, flowChange)
-				} else {
-					// update main flow
-					UpdateFlow(fs.SnapshotBase, flowChange)
+					subflows[flowChange.SubflowId] = subflow
 				}
-			}
-		}
-		if len(step.QueueChanges) > 0 {
-			// most recent items first
-			ids := make([]int, 0, len(step.QueueChanges))
-			for id := range step.QueueChanges {
-				ids = append(ids, id)
-			}
-			sort.Sort(sort.Reverse(sort.IntSlice(ids)))
-			for _, id := range ids {
-				UpdateQueue(fs, id, step.QueueChanges[id], removed)
+				UpdateFlow(subflow.SnapshotBase, flowChange)
+			} else {
+				// update main flow
+				UpdateFlow(fs.SnapshotBase, flowChange)
 			}
 		}
 
+		// oldest items first
+		ids := make([]int, 0, len(step.QueueChanges))
+		for id := range step.QueueChanges {
+			ids = append(ids, id)
+		}
+		sort.Ints(ids)
+		for _, id := range ids {
+			UpdateQueue(fs, id, step.QueueChanges[id])
+		}
 	}
 
-	for id, subflow := range subflows {
-		if id != 0 {
-			fs.Subflows = append(fs.Subflows, subflow)
-		}
+	for _, subflow := range subflows {
+		fs.Subflows = append(fs.Subflows, subflow)
 	}
 
 	return fs
 }
 
-// UpdateQueue adds the item to the work queue, unless a more recent step removed it
-func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue, removed map[int]bool) {
+// UpdateQueue applies a more recent change to the work queue, items are added in front of it
+func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue) {
 
-	if queueChg.ChgType == change.Delete {
-		removed[id] = true
+	for i, item := range fs.WorkQueue {
+		if item.ID == id {
+			fs.WorkQueue = append(fs.WorkQueue[:i], fs.WorkQueue[i+1:]...)
+			break
+		}
 	}
 
-	if queueChg.ChgType == change.Add && !removed[id] {
-		fs.WorkQueue = append(fs.WorkQueue, &WorkItem{
-			ID:        id,
-			SubflowId: queueChg.SubflowId,
-			TaskId:    queueChg.TaskId,
-		})
+	if queueChg.ChgType != change.Delete {
+		item := &WorkItem{ID: id, SubflowId: queueChg.SubflowId, TaskId: queueChg.TaskId}
+		fs.WorkQueue = append([]*WorkItem{item}, fs.WorkQueue...)
 	}
 }
 
+// UpdateFlow applies a more recent change to the flow
 func UpdateFlow(s *SnapshotBase, change *change.Flow) {
 
 	if len(change.Attrs) > 0 {
-		// changes are applied from the most recent one, so an attribute that is set is up to date
 		if s.Attrs == nil {
 			s.Attrs = make(map[string]interface{}, len(change.Attrs))
 		}
 		for name, value := range change.Attrs {
-			if _, exists := s.Attrs[name]; !exists {
-				s.Attrs[name] = value
-			}
+			s.Attrs[name] = value
 		}
 	}
 
-	if s.Status == 0 {
+	// a change without a status doesn't change it
+	if change.Status != 0 {
 		s.Status = change.Status
 	}
 
@@ -111,61 +103,48 @@ func UpdateFlow(s *SnapshotBase, change *change.Flow) {
 		s.FlowURI = change.FlowURI
 	}
 
-	if len(change.Tasks) > 0 {
-		for id, taskChg := range change.Tasks {
-			UpdateTasks(s, id, taskChg)
-		}
+	for id, taskChg := range change.Tasks {
+		UpdateTasks(s, id, taskChg)
 	}
-	if len(change.Links) > 0 {
-		for id, linkChg := range change.Links {
-			UpdateLinks(s, id, linkChg)
-		}
+	for id, linkChg := range change.Links {
+		UpdateLinks(s, id, linkChg)
 	}
 }
 
-func UpdateTasks(snapshot *SnapshotBase, taskId string, change *change.Task) {
+// UpdateTasks applies a more recent change to the task, one that was removed is not part of the snapshot
+func UpdateTasks(snapshot *SnapshotBase, taskId string, taskChg *change.Task) {
 
-	var td *Task
-
-	if snapshot.Tasks != nil {
-		for _, task := range snapshot.Tasks {
-			if task.Id == taskId {
-				td = task
+	for i, task := range snapshot.Tasks {
+		if task.Id == taskId {
+			if taskChg.ChgType == change.Delete {
+				snapshot.Tasks = append(snapshot.Tasks[:i], snapshot.Tasks[i+1:]...)
+			} else {
+				task.Status = taskChg.Status
 			}
+			return
 		}
 	}
 
-	if td == nil {
-		snapshot.Tasks = append(snapshot.Tasks, &Task{
-			Id:     taskId,
-			Status: change.Status,
-		})
-	} else {
-		if td.Status == 0 {
-			td.Status = change.Status
-		}
+	if taskChg.ChgType != change.Delete {
+		snapshot.Tasks = append(snapshot.Tasks, &Task{Id: taskId, Status: taskChg.Status})
 	}
 }
 
-func UpdateLinks(snapshot *SnapshotBase, linkId int, change *change.Link) {
-	var ld *Link
+// UpdateLinks applies a more recent change to the link, one that was removed is not part of the snapshot
+func UpdateLinks(snapshot *SnapshotBase, linkId int, linkChg *change.Link) {
 
-	if snapshot.Links != nil {
-		for _, link := range snapshot.Links {
-			if link.Id == linkId {
-				ld = link
+	for i, link := range snapshot.Links {
+		if link.Id == linkId {
+			if linkChg.ChgType == change.Delete {
+				snapshot.Links = append(snapshot.Links[:i], snapshot.Links[i+1:]...)
+			} else {
+				link.Status = linkChg.Status
 			}
+			return
 		}
 	}
 
-	if ld == nil {
-		snapshot.Links = append(snapshot.Links, &Link{
-			Id:     linkId,
-			Status: change.Status,
-		})
-	} else {
-		if ld.Status == 0 {
-			ld.Status = change.Status
-		}
+	if linkChg.ChgType != change.Delete {
+		snapshot.Links = append(snapshot.Links, &Link{Id: linkId, Status: linkChg.Status})
 	}
 }
-- 
2.43.0


From 12af64ccce40cf0978ae29e7d980c153cd50c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:35 +0000
Subject: [PATCH 45/47] fix: the recorded creation of a subflow keeps naming
 the task that hosts it

Recording a task of the new subflow in the same step replaced it.
---
 instance/instance_chg.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index 1a2e921..27a7b64 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -376,7 +376,10 @@ func getTaskChange(step *state.Step, subflowId int, taskId string, flowname stri
 		fc = &change.Flow{SubflowId: subflowId, TaskId: taskId, FlowURI: flowname}
 		step.FlowChanges[subflowId] = fc
 	} else {
-		fc.TaskId = taskId
+		if !fc.NewFlow || subflowId == 0 {
+			// the change that creates a subflow names the task that hosts it
+			fc.TaskId = taskId
+		}
 		if fc.FlowURI == "" {
 			fc.FlowURI = flowname
 		}
-- 
2.43.0


From d50969bd6c5aa733d77890683686b3c0511593a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:22 +0000
Subject: [PATCH 46/47] fix: the ids of new work items of a restored flow
 differ from those of the restored ones

---
 instance/instance_ser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 9e062c6..54b2af0 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -122,6 +122,11 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 			taskInsts = inst.subflows[workItem.SubFlowID].taskInsts
 		}
 
+		if int64(workItem.ID) > inst.wiCounter {
+			// new work items continue after the restored ones
+			inst.wiCounter = int64(workItem.ID)
+		}
+
 		workItem.taskInst = taskInsts[workItem.TaskID]
 		inst.workItemQueue.Push(workItem)
 	}
-- 
2.43.0


From c19f838968b07cfcb30f6ff9f5072e4f9cdb1430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:53 +0000
Subject: [PATCH 47/47] fix: a task event of an activity that declares no
 inputs and outputs must not panic

---
 instance/taskevents.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instance/taskevents.go b/instance/taskevents.go
index 46a30f8..6a74501 100644
--- a/instance/taskevents.go
+++ b/instance/taskevents.go
@@ -131,7 +131,7 @@ func postTaskEvent(taskInstance *TaskInst) {
 
 			if actConfig != nil && actConfig.Activity != nil && actConfig.Activity.Metadata() != nil {
 				metadata := actConfig.Activity.Metadata()
-				if metadata.Input != nil && len(metadata.Input) > 0 && taskInstance.Task().IsScope() {
+				if metadata.IOMetadata != nil && metadata.Input != nil && len(metadata.Input) > 0 && taskInstance.Task().IsScope() {
 
 					for name, attVal := range actConfig.Activity.Metadata().Input {
 						te.taskIn[name] = attVal.Value()
@@ -145,7 +145,7 @@ func postTaskEvent(taskInstance *TaskInst) {
 					}
 				}
 
-				if te.status == event.COMPLETED && metadata.Output != nil && len(metadata.Output) > 0 && taskInstance.Task().IsScope() {
+				if te.status == event.COMPLETED && metadata.IOMetadata != nil && metadata.Output != nil && len(metadata.Output) > 0 && taskInstance.Task().IsScope() {
 					for name, attVal := range actConfig.Activity.Metadata().Output {
 						te.taskOut[name] = attVal.Value()
 						if taskInstance.outputs != nil {
-- 
2.43.0

