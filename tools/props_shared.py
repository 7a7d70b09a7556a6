"""State that flows and tasks share: C22 - C25."""
from props_engine import P as _P
LOCKS = ("interprocedural, context-sensitive lock-state dataflow (typestate of every mutex per access path; guarded-by check) over go/ssa",
  "Analyses every function that reaches a lock or a guarded variable in every lock state in which it can be entered, with interface calls dispatched to all implementations in the repository and callbacks from library code. "
  "Objects are told apart by access path; the locks of unrelated objects of one class count as possibly the same. Which lock guards which field is a table in the checker; the work queue's own lock is the library's.")
EFFECTS = ("field-based interprocedural value-flow and effect analysis over go/ssa",
  "Flow-insensitive: any write, anywhere in the code reachable from running a flow, through any reference that may come from the protected data counts. "
  "Objects are abstracted by field, so data handed to activities, mappers or other libraries is followed no further.")


def P(*a, tech):
    return _P(*a, tech=tech)


I = "instance/ind_instance.go"
N = "instance/instance.go"
PROPS = [
P("C22", "Locks are released on every path, never taken twice, and taken in one order",
  "Every lock the engine takes is released on every way out of the code that took it, an absent lock is never used, and no one waits for a channel while holding one. "
  "No one acquires a lock it may already hold, through whatever calls and callbacks, and no two locks are ever acquired in opposite orders, so concurrent flows and tasks can't deadlock.",
  ["schedules", "programs"], "every path through the code that takes locks, entered with every set of locks that may be held",
  "A deadlock needs a particular interleaving, or the one nested call that comes back to the same lock.",
  [N, I, "instance/instance_chg.go", "support/manager.go", "model/registry.go", "activity/subflow/activity.go"],
  [("locks", "Instance.lock, subFlowLock and actSchedLock in instance; SimpleChangeTracker.lock; FlowManager.rfMu; modelsMu; SubFlowActivity.mutex")], tech=LOCKS),
P("C23", "State that concurrent tasks share is only touched under its lock",
  "When tasks of a flow are executed concurrently, the flow's attributes, task and link instances, its subflows, and the recorded changes are only read or changed by someone who holds the lock of that very instance, and only changed under a write lock. "
  "The loaded flows and the registered models are always guarded that way.",
  ["schedules", "configurations"], "every access reachable from a concurrently executed task, in every lock state",
  "The race detector only sees the interleavings that happen to occur, and the tests never execute tasks concurrently.",
  [N, I, "instance/instance_chg.go", "support/manager.go", "model/registry.go"],
  [("concurrent tasks", I + " DoStepInLoop, execTask; " + N + "; instance/instance_chg.go")], tech=LOCKS),
P("C24", "Running a flow never changes its definition",
  "The definition of a flow - its tasks, links, settings, mappings, metadata and error handler - and everything reachable from it is the same before and after any instance of it runs. "
  "So every instance, and every flow that uses the same subflow, behaves as defined, however many ran before or run at the same time.",
  ["histories", "schedules", "programs"], "every write in the code reachable from running a flow, for every reference into a definition",
  "A shared definition that is modified shows only in later or concurrent runs; tests build a fresh one each time.",
  ["definition/definition.go", I, "model/simple/taskbehavior.go", "instance/util.go"],
  [("definition", "definition/definition.go getters; their users in instance, model/simple and support")], tech=EFFECTS),
P("C25", "Running flows leaves package-level state alone",
  "Running a flow never changes state that all flows of the process share, except under a lock, so flows can't influence each other through it, whether they run one after the other or at the same time.",
  ["histories", "schedules"], "every write in the code reachable from running a flow, for every package-level variable",
  "Cross-talk between flows needs two of them, in one process, in the right order.",
  ["action.go", "instance/util.go", "support/env.go", "definition/mapper.go", "model/registry.go"],
  [("package-level variables", "all packages of the repository")], tech=EFFECTS),
]
NA = []
