"""Properties that static analysis can't decide here."""


def N(id, title, statement, over, text, why, files, mech, reason):
    return ({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
             "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}, reason)


PROPS = []
NA = [
N("N01", "Every flow whose activities and loops end comes to an end",
  "A flow whose activities return, whose loop conditions become false and whose retries are bounded reaches a final status after finitely many steps.",
  ["programs", "schedules"], "every flow definition and every behaviour of its activities",
  "No set of flows shows that none runs forever.",
  ["action.go", "instance/ind_instance.go"], [("engine loop", "action.go Run, instance/ind_instance.go DoStep")],
  "termination depends on values computed by activities and conditions at run time; the part that is decidable here - the loop ends at a final status, no queued work is lost, finished tasks finish their flow - is claimed as C05 to C12"),
N("N02", "Delays and intervals last as long as configured",
  "The pause before a retry, between iterations and between two evaluations of a loop condition lasts at least the configured time.",
  ["schedules", "configurations"], "every configured interval and every load of the machine",
  "Elapsed time depends on the scheduler.",
  ["model/simple"], [("delays", "model/simple retry, delay and interval handling")],
  "elapsed time is a run-time quantity of the scheduler; no static argument bounds it"),
N("N03", "Concurrent execution of tasks gives a result that some order gives",
  "With concurrent task execution switched on, the attributes, statuses and result of a flow are those of some sequential order of its tasks.",
  ["schedules"], "every interleaving of the workers of a flow",
  "A test sees few interleavings.",
  ["instance/ind_instance.go"], [("concurrent mode", "instance/ind_instance.go DoStep, execTask")],
  "needs all interleavings of whole task executions that share attributes by value; lock discipline, which static analysis does decide, is claimed as C22 and C23, linearizability is not"),
N("N04", "Expressions and mappings evaluate to what they denote",
  "Every link condition, loop condition and mapping evaluates to the value its text denotes in the scope of the flow.",
  ["inputs"], "every expression and every scope",
  "The set of expressions is unbounded.",
  ["definition/definition_ser.go"], [("expressions", "definition/definition_ser.go; the evaluation is in project-flogo/core")],
  "the evaluator is in a dependency outside this repository and the result is a run-time value; that the described expression is the one that is built and that its result or error decides is claimed as C13, C14 and C29"),
N("N05", "The memory a finished flow used is released",
  "After a flow has finished nothing of the engine keeps its instance, attributes or recorded steps reachable.",
  ["histories"], "every history of flows in one engine",
  "A leak shows only over long histories.",
  ["action.go", "instance/instance_chg.go"], [("instances", "action.go Run")],
  "reachability from closures held by runners, tracers, recorders and activities outside the repository can't be bounded from its source"),
]
