"""The evaluation of one task: C20, C21."""
from props_engine import P as _P
TASK = ("abstract interpretation (path-sensitive typestate over the steps of a task's evaluation, tracked input and output among arbitrary others) over go/ssa",
  "Sound over every path of the evaluation and what it calls in the repository, for one tracked input, output and mapped value among arbitrarily many others; mappers, schemas and activities are arbitrary, and may fail or (activities) panic. "
  "Trusts the library models; does not follow which inputs an interceptor overrides, nor what mapping expressions compute.")

TI = "instance/taskinst.go"
U = "instance/util.go"


def P(*a):
    return _P(*a, tech=TASK)


PROPS = [
P("C20", "An activity runs at most once per evaluation, with its mapped, checked inputs",
  "Evaluating a task runs its activity exactly once, or not at all if the task is skipped or mocked, with the inputs that its mapper - the patched one if the flow is patched - yields from the data the task sees, and only if none of them violates its schema. "
  "If a mapping, a check or the activity fails, even by a panic, the evaluation reports that error and no later step runs; it never escapes and is never dropped, and neither is the error a subflow returned.",
  ["inputs", "fault_sequences", "configurations"], "every combination of mapper, patch, interceptor, validation, schemas and outcome of the activity",
  "Tests run activities whose inputs map and validate, without patches, and never one that panics.",
  [TI, U], [("evaluation", TI + " EvalActivity, PostEvalActivity"), ("inputs", U + " applyInputMapper, applyInputInterceptor, hasOutputInterceptor")]),
P("C21", "Outputs reach the flow exactly when the activity is done",
  "When the activity of a task is done, its checked outputs are mapped once and every mapped value is set in the task's own flow; in a loop that accumulates, a complete copy of them is instead added to those of the earlier iterations. "
  "While the activity is not done, or if it failed, nothing is mapped, set or accumulated.",
  ["inputs", "fault_sequences", "configurations"], "every combination of output mapper, patch, loop configuration, schemas and outcome of the activity",
  "Tests look at one output of one successful activity; sharing of accumulated outputs shows only in later iterations.",
  [TI, U], [("evaluation", TI + " EvalActivity, PostEvalActivity"), ("outputs", U + " applyOutputMapper; " + TI + " handleAccumulation, copyOutputs")]),
]
NA = []
