"""What a flow is built from: C29 ..."""
from props_engine import P as _P
BUILD = ("path-sensitive abstract interpretation of the builders over go/ssa with a tracked element of each collection and symbolic link ids",
  "Every path of the functions that build definitions, tasks, links and activities, for descriptions of any size and content; every library call may fail. A link is explored for each type it can have and for each missing part.")


def P(*a, tech):
    return _P(*a, tech=tech)


D = "definition/definition_ser.go"
PROPS = [
P("C29", "The flow that is built is the one that is described",
  "Every task and link described for a flow or its error handler becomes part of it exactly once, under its own id, with the described type, name, settings, activity, expression and ends; the ids of the links of the error handler differ from those of the flow. "
  "Name, model, metadata and explicit reply of the flow are the described ones. "
  "Whatever can't be built - a link end or activity that doesn't exist, a missing or invalid expression, an unsupported task type, a setting or schema that can't be resolved - is refused with an error instead of being left out.",
  ["inputs"], "every description of a flow, every path of the functions that build it, and every failure of the libraries they use",
  "A part that is left out, exchanged or attached elsewhere needs a description of the right shape; the tests build a handful of flows without errors.",
  [D, "definition/definition.go"],
  [("flow building", D + " NewDefinition, createTask, createLink, createActivityConfig")], tech=BUILD),
P("C33", "Loops and retries are configured as described",
  "The loop of a task has the condition, collection, delay and accumulation its settings describe, directly or in its loop or do-while setting, and a task has no loop if neither a condition nor a collection is described. "
  "The number and the interval of its retries are the described ones, and without a description it is not retried; an expression is evaluated when it is needed, with the data of the flow. "
  "A text that is no valid expression, a number that is none, or an evaluation that fails is reported as an error.",
  ["inputs", "configurations"], "every form and combination of the settings, and every failure of an expression or conversion",
  "Each setting has several forms - absent, null, an expression, a text, a value - in several places, which the tests don't combine.",
  [D, "definition/definition.go"],
  [("loop and retry settings", D + " getLoopCfg, getLoopCfgDef, getRetryOnErrCfg; definition/definition.go retryOnErrConfig, LoopConfig")], tech=BUILD),
P("C34", "An activity gets the settings, inputs, outputs and schemas described for it",
  "The activity of a task is created with, and has, every setting that is described, resolved as the activity declares it, every described input and output - an expression or mapping unchanged, a declared value converted to its type, any other value unchanged - and every described schema, those of inputs and outputs apart. "
  "It carries the names of its task and flow and its described type. "
  "A flow replies explicitly exactly if it is described so or one of its activities returns or replies.",
  ["inputs", "configurations"], "every described entry of every form, declared or not, and every failure of what resolves or converts it",
  "An entry is lost or left unconverted only for certain combinations of form and declaration; the tests configure few and don't look at the result.",
  [D, "definition/definition.go"],
  [("activity configuration", D + " createActivityConfig, isExpr, createTask; definition/definition.go ActivityConfig")], tech=BUILD),
]
NA = []
