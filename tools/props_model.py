# The properties decided on the flow model (task, loop and flow behaviors).
from props_engine import P as _P
MODEL = ("abstract interpretation (path-sensitive, tracked element among arbitrary others) of the behavior methods over go/ssa",
  "Sound over every path of every implementation of the behavior interfaces, with a tracked link or task of every kind and status among arbitrarily many others; loops are run to a fixpoint with numeric difference constraints. "
  "Trusts the library models and that a task has at most one 'otherwise' link when the tracked link is one; recursive retries are unrolled twice and then assumed to behave as the first two do.")
def P(*a, **k): return _P(*a, tech=MODEL, **k)
T, I, D, R, F = ["model/simple/" + f for f in ("taskbehavior.go", "iteratorbehavior.go", "dowhilebehavior.go", "retry.go", "flowbehavior.go")]
PROPS = [
P("C13", "A task becomes ready only when all its incoming links are decided",
  "A task that is entered is ready if it has no incoming links, or if all of them are decided and at least one was followed; it is skipped if all of them are decided and none was followed. "
  "As long as an incoming link is undecided it is neither. Its status is set accordingly.",
  ["inputs", "programs", "histories"], "every number of incoming links and every combination of their statuses",
  "Tests use joins of two links at most; the condition is about all links, in any order and any status.",
  [T], [("entering a task", T + " Enter")]),
P("C14", "A finished task decides each of its links by the link's kind",
  "When a task is done each of its outgoing links is decided: dependency and label links are followed, expression links exactly if their expression is true, the otherwise link exactly if there are expression links and none of them was true, error links never. "
  "Each expression is evaluated once, with the data of its flow, an error or panic in one is reported, and the successor of every link is entered once, those of links that are followed before the others; a task without outgoing links notifies its flow.",
  ["inputs", "programs"], "every list of outgoing links, every combination of kinds and of expression results",
  "Tests cover a few lists of links; the otherwise rule depends on the results of all expression links in any order.",
  [T], [("done transition", T + " Done")]),
P("C15", "A skipped task skips all of its links and reaches all of its successors",
  "When a task is skipped it takes the skipped status, each of its outgoing links becomes skipped without its expression being evaluated, and the successor of each is entered once. A skipped task without outgoing links notifies its flow.",
  ["inputs", "programs"], "every list of outgoing links",
  "Skip propagation only shows in graphs with several levels of skipped tasks and joins.",
  [T], [("skip transition", T + " Skip")]),
P("C16", "A task error is handled exactly if the task has an error link",
  "An error of a task is handled exactly if one of its outgoing links is an error link. Then error links are followed, all others are not, and the successor of each link is entered once, those of error links first; otherwise no link is decided and no successor is entered.",
  ["inputs", "programs", "fault_sequences"], "every list of outgoing links and every position of an error link",
  "The few tests with error links have it in one position.",
  [T], [("error transition", T + " Error")]),
P("C17", "The result of evaluating a task is the result of its activity",
  "The activity of a task is evaluated exactly once, unless the task is skipped or it has to be retried: only after an error that may be retried, only if the task is configured to, and each time using up one of the configured retries. "
  "Its error is reported once no retry is left and never dropped or invented; an activity that is not finished makes the task wait, and one that is finished completes the evaluation.",
  ["inputs", "fault_sequences", "configurations"], "every outcome of the activity and its retries, with every retry configuration, for plain, iterating and do-while tasks",
  "Tests never combine retries with loops, waiting activities and errors of the post-evaluation.",
  [T, R, I, D], [("evaluation", T + " Eval, PostEval, evalActivity"), ("retry", R + " retryEval, getRetryData")]),
P("C18", "Loops visit every element once and in order and repeat only when due",
  "An iterating task evaluates its activity once for every element of its collection - a number, array, object or other slice - in order, with the key, value and index of that element, and is repeated until there is none left. "
  "A do-while task is repeated exactly if its condition, evaluated once per iteration, is true, with an index that grows by one per iteration; a task that is repeated is left ready to be evaluated.",
  ["inputs", "histories", "configurations"], "every collection and size, every sequence of results and conditions, also when an iteration has to wait",
  "Tests iterate over one small array and count; waiting iterations were not tested at all and did not work.",
  [I, D], [("iterators", I + " ArrayIterator, IntIterator, ObjectIterator, ReflectIterator"), ("loop behaviors", I + " Eval, PostEval; " + D + " Eval, PostEval, evaluateCondition")]),
P("C19", "A flow starts with its first tasks and ends when all its tasks ended",
  "Starting a flow or an error handler enters each task without incoming links exactly once, and no other. A flow is done exactly if every one of its tasks that was entered is done, skipped or failed.",
  ["inputs", "programs", "histories"], "every set of tasks and task statuses",
  "The end of a flow depends on all tasks; tests only see flows whose tasks end in one order.",
  [F], [("first tasks", F + " Start, StartErrorHandler, getFlowTaskEntries"), ("end of a flow", F + " TaskDone")]),
]
NA = []
