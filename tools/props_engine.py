# The properties decided by the task engine monitor.
I = "instance/ind_instance.go"
ENGINE = ("abstract interpretation (path-sensitive typestate) of the task engine over go/ssa",
  "Sound over the monitored paths up to the modelling below: every path of both stepping functions from a dequeued work item to the end of its processing is explored to a fixpoint, "
  "for arbitrary heap contents, an arbitrary successor and an arbitrary incoming link; the flow model's behaviors are unknown code constrained by their signature. "
  "Trusts the library models (logging, tracing, formatting have no effect) and analyses one worker at a time (interleavings are covered by the lock rules only).")
def P(id, title, statement, over, qtext, why, files, mech, tech=ENGINE, hook=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    return d, tech
PROPS = [
P("C05", "A failed flow always carries the error that made it fail",
  "Whenever a flow instance (the main flow or an embedded subflow) takes the failed status it carries a non-nil error, and when a task's error made it fail it is that task's error. "
  "The error is not dropped afterwards, and when the failed flow is a subflow the task that hosts it receives the same error.",
  ["inputs", "histories", "fault_sequences"], "every way a task, a transition or a panic can fail a flow, at every nesting depth, in sequential and concurrent execution",
  "The tests run a few failing flows; none enumerates the ways of failing (evaluation error, transition error, panic, error inside the error handler, subflow).",
  [I], [("single place that fails an instance", I + " failInstance"), ("error of a task", I + " handleTaskError, HandleGlobalError")]),
P("C06", "Each work item evaluates its own task at most once and only when due",
  "A work item is taken from the queue only while the flow is active. Unless the step limit stops the flow it leads to exactly one evaluation of its own task - a post-evaluation when the task is waiting, a first evaluation otherwise - "
  "and to nothing at all when that task is already done or skipped.",
  ["inputs", "histories"], "every work item, every status of its task, every outcome of the previous steps",
  "Tests execute a handful of fixed flows in which work items of finished or waiting tasks hardly occur.",
  [I], [("dequeue guarded by the flow status", I + " DoStep, DoStepInLoop"), ("dispatch on the task status", I + " execTask")]),
P("C07", "The outcome of a task's evaluation determines exactly what happens next",
  "After a task is evaluated: done or skipped leads to exactly one completion of the task, wait leaves it waiting, fail leaves it failed, repeat schedules it exactly once more, and an error (also one in its settings) leads to exactly one error transition. "
  "A task that waits, failed or repeats makes nothing else progress, and no task is completed or rescheduled for any other reason.",
  ["inputs", "histories"], "every outcome of every evaluation and post-evaluation",
  "Only the done and a few error outcomes are exercised by the tests, on fixed flows.",
  [I], [("dispatch on the evaluation result", I + " execTask")]),
P("C08", "Every successor is entered exactly once and handled as it reports",
  "When a task, an error or an error handler yields successor tasks, each one not already scheduled is entered exactly once, in the same flow instance, and all of them are entered before any of them is completed. "
  "A ready one is scheduled exactly once, one to be skipped is completed exactly once (unless its flow ended meanwhile) and never scheduled, one that is not ready is left alone; nothing else is scheduled.",
  ["inputs", "programs", "histories"], "every list of successors and every answer of their behaviors",
  "Tests use flows with one or two successors; the order of entering and skipping only matters for particular graph shapes.",
  [I], [("entering the successors", I + " enterTasks, scheduleEntries"), ("work queue", I + " scheduleEval")]),
P("C09", "A finished task releases itself and ends its flow exactly when it must",
  "A finished task takes the done or the skip transition according to its status, is released once together with its incoming links, and nothing else is released. "
  "Its flow instance is completed exactly once if the flow reports it is done or a return was requested, in which case no successor is entered; otherwise it is not completed. "
  "A completed subflow is removed from its parent and the task hosting it is scheduled exactly once, with the subflow's return data as outputs and no error.",
  ["inputs", "programs", "histories"], "every completion of a task in a main flow or a subflow",
  "Tests sample a few flows; the combinations of notification, return request, subflow nesting and skipping are not enumerated.",
  [I], [("completion of a task", I + " handleTaskDone"), ("end of a subflow", I + " handleTaskDone")]),
P("C10", "A task error is either handled by its error links or fails over to the flow",
  "A task with an error is marked failed and carries the error when its error transition is taken, once, with that error. "
  "If the transition handles it, the error's data becomes available under the task's id, the task and its incoming links are released, the error successors are entered and the flow does not fail. "
  "Otherwise the error's data is made available and exactly one of two things happens: the flow's error handler starts, or the flow fails and enters no successors; a failed subflow is removed and its hosting task scheduled exactly once.",
  ["inputs", "fault_sequences", "histories"], "every error of a task, its settings, its transition, or a panic, in every flow instance",
  "The error paths run in very few tests, and never for nested subflows or errors inside an error handler.",
  [I, "instance/taskinst.go"], [("error transition", I + " handleTaskError"), ("global error", I + " HandleGlobalError"), ("error data", "instance/taskinst.go appendErrorData, setTaskError")]),
P("C11", "The error handler runs at most once and only for its own flow instance",
  "An unhandled error starts the error handler of the flow instance it occurred in if that instance has a non-empty one and is not already handling an error, and in no other case. "
  "The instance is then marked as handling an error, only its own tasks are discarded, exactly once, and the first tasks of the handler are entered.",
  ["inputs", "programs", "fault_sequences"], "every unhandled error, also a second one inside the handler and errors in subflows",
  "No test raises an error inside an error handler, or in a subflow whose parent has tasks in progress.",
  [I], [("handling flag and handler start", I + " HandleGlobalError"), ("discarding tasks", "instance/instance.go clearTasks")]),
P("C12", "A panic in a task is contained and treated as an error of its flow",
  "A panic raised while a task is evaluated never escapes the worker that executes the flow. "
  "It is treated as an unhandled error of the flow instance of that task: the error handler starts or the instance fails with an error.",
  ["inputs", "fault_sequences"], "a panic in any evaluation or post-evaluation, in sequential and concurrent execution",
  "Only one test panics, in one position.",
  [I], [("recovery", I + " execTask deferred function")]),
]
NA = []
