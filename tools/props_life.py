# The properties of a run, from the request to its end.
from props_engine import P
LIFE = ("abstract interpretation (path-sensitive typestate of the run protocol) over go/ssa",
  "Every path of both actions' entry points and of the goroutine they start is explored to a fixpoint, for any request options, any recorder (none or one) and any behaviour of the steps; "
  "the steps themselves are summarised (they may change the flow's status in any way). The deferred notification is followed through returns and panics. Trusts the library models; a step that never returns is out of reach.")
A = "action.go"; O = "ondemand/action.go"; I = "instance/ind_instance.go"
PROPS = [
P("C01", "The caller of an accepted run is told exactly once that it ended",
  "A run request is either rejected with an error, in which case nothing was started, delivered or signalled, or it is accepted without an error and its end is signalled to the caller exactly once. "
  "For an ordinary run nothing is delivered, executed or recorded after that signal; for a detached run the signal comes before the flow is executed.",
  ["inputs", "histories", "configurations"], "every combination of request options, every way the flow can end",
  "The tests start a few flows and look at their result; the signalling protocol over all the option combinations and exits is not sampled.",
  [A, O], [("goroutine of a run", A + " Run"), ("goroutine of an on-demand run", O + " Run")], LIFE),
P("C02", "An accepted run delivers exactly one terminal result, of the right kind",
  "An accepted run starts its own flow instance once, before executing it, and delivers exactly one terminal result: the return data if the flow completed, its error if it failed, an error if the step limit stopped it "
  "(an empty result only for a failure that a test assertion expects, none if it was cancelled). Data never comes together with the error of the flow. The instance's id is delivered at most once, only when asked for, and before the flow executes.",
  ["inputs", "histories", "configurations"], "every combination of request options, every way the flow can end",
  "Each test observes one outcome of one flow; a second or a missing result on a rare exit (limit, cancellation, failure under assertions) is not observed.",
  [A, O], [("classification of the end", A + " Run"), ("classification of the end", O + " Run")], LIFE),
P("C03", "A recorded run records its start, its steps and its end, each once",
  "With a state recorder every accepted run records its start once before the flow is started, the state it starts from before the first step (unless it restarts from a later step), every step after it was executed and before the next one, "
  "and its end exactly once, on every exit, after everything else. A rejected run records nothing, and without a recorder nothing is recorded.",
  ["inputs", "histories", "configurations"], "every combination of request options, with and without a recorder, sequential execution",
  "No test runs the action with a state recorder.",
  [A], [("recording calls", A + " Run"), ("step recording", I + " RecordState")], LIFE),
P("C04", "A run executes at most the configured number of steps and says when it stops",
  "A run never executes more task evaluations than the step limit, a restarted run counts the steps it skips, and a step executes at most one task, only while the flow is in progress. "
  "A flow that still has work is never abandoned silently: it ends because its status says so, because its work queue is empty, or with the limit's error, and that error is reported only when the limit was reached.",
  ["inputs", "programs", "configurations"], "every limit, every starting step, sequential and concurrent execution",
  "The tests never come near the limit.",
  [A, O, I], [("step loop", A + " Run"), ("step loop", O + " Run"), ("steps", I + " DoStep, DoStepInLoop")], LIFE),
]
NA = []
