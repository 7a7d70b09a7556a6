"""Data and events of a flow, and where flows come from: C35 ..."""
from props_engine import P as _P

TECH = ("path-sensitive abstract interpretation over go/ssa of the functions that move data into and out of a flow, with one tracked name in every way it can be declared, given or set",
  "Every path of the analysed functions, for maps of any size: the tracked entry is one of arbitrarily many. Logging, tracing and the change tracker have no effect on the data.")


def P(*a, tech=TECH):
    return _P(*a, tech=tech)


PROPS = [
P("C35", "A flow starts with its inputs and returns its outputs",
  "A flow or subflow starts with every value it is given, with the declared value of every declared input it is not given, and knows its own name and id and those of the flow that started it; a subflow runs in the run of the task that started it, under a number of its own, with exactly the inputs it declares. "
  "What an activity returned or replied is what the flow returns, with the error; otherwise that is each declared output with its declared value or the one it has in the flow, and asking for it changes nothing. "
  "A reply is passed on once and unchanged, and an attribute is read as it was last set.",
  ["inputs", "configurations"], "every combination of declared, given and set values, every path, and nested subflows of any depth",
  "Values are lost or exchanged only for certain combinations of declaration, default and given value, or in nested subflows; the tests start few flows and look at few values.",
  ["instance/ind_instance.go", "instance/instance.go", "instance/util.go", "activity/subflow/activity.go"],
  [("inputs, outputs and attributes", "instance/ind_instance.go startInstance, initAttrs, newEmbeddedInstance; instance/instance.go buildReturnData, Reply, Return, GetValue, SetValue; activity/subflow/activity.go Eval, Metadata")]),
P("C36", "An event says what happened, and posting it changes nothing",
  "Every change of the status of a flow, subflow or task is posted exactly once as an event to the listeners of its kind, and never without a listener. "
  "The event has the status after the change, the time, the names and ids of its flow and task - of the flow it runs in and of the task that hosts it only for a subflow -, the type and activity of a task, the error exactly if the status is failed, the inputs, and the outputs exactly if it is completed. "
  "Its data is its own copy, whatever the activity declares, and posting it neither fails nor changes the flow.",
  ["inputs", "configurations"], "every status of a flow, subflow or task, every way an activity can be declared, and every tracked value, with and without a listener",
  "No test listens to events; a wrong or missing part only shows for a certain status, declaration or nesting.",
  ["instance/flowevents.go", "instance/taskevents.go", "instance/instance.go", "instance/taskinst.go"],
  [("flow and task events", "instance/flowevents.go postFlowEvent, convertFlowStatus, flowEvent; instance/taskevents.go postTaskEvent, convertTaskStatus, taskEvent; SetStatus of Instance and TaskInst")],
  tech=("path-sensitive abstract interpretation over go/ssa of the status changes; what an event says is decided by exploring its accessors in the state in which it is posted",
  "Every path, for each status; the tracked value is one of arbitrarily many. What listeners do is outside the repository.")),
P("C37", "A flow is found by its uri, or its absence is reported",
  "An embedded flow is the one of its resource, any other one the one of the flow manager, which asks its provider once and then keeps the flow it built; for a resource that does not exist or is no flow there is none. "
  "What a uri leads to, uncompressed exactly if it is compressed, is what the flow is built from: a file by its path, a web address by a successful response. "
  "Whatever cannot be read, fetched, understood or built, and a uri of another kind, is reported as an error and not kept; each resource that is set is loaded by the loader of its type and stored under its id.",
  ["inputs", "fault_sequences"], "every kind of uri, content and response, every failure of a step of the lookup, and every earlier lookup",
  "Tests look up flows that exist and are fine; failures of each step, compressed content and repeated lookups aren't tried.",
  ["support/manager.go", "support/definition.go", "support/resource.go"],
  [("flow lookup", "support/manager.go FlowManager.GetFlow, NewFlowManager, BasicRemoteFlowProvider.GetFlow; support/definition.go GetDefinition, SetResource; support/resource.go FlowLoader.LoadResource")],
  tech=("path-sensitive abstract interpretation over go/ssa of the lookup functions; every fallible call fails or succeeds, and the data is followed through reading, decoding and uncompressing by what it was derived from",
  "Every path, for each kind of uri and content; that a whole request or file is read is up to the standard library.")),
P("C38", "A reference in a mapping reaches the value that was put there",
  "A reference to an input or attribute of the flow, to the context of the flow, to an output or the error of a task, to the error of the flow or to the current iteration yields the value that was put there, unchanged, even if it is null; where nothing was put, the reference fails with an error instead of yielding another value. "
  "Working data of a task is what was set last under that name, hides nothing of its flow that is not working data, and is never looked for elsewhere. "
  "Without output mappings every declared output an activity has set, and nothing else, is put where references to the task look.",
  ["inputs", "configurations"], "every kind of reference, every name, every value including null, and every state of what is referred to: put there or not",
  "Tests resolve a few references to values that exist; missing ones, null values and names that only differ in part aren't tried.",
  ["definition/resolve.go", "definition/mapper.go", "instance/scopes.go", "instance/taskinst.go"],
  [("references", "definition/resolve.go the Resolve method of each registered resolver; definition/mapper.go NewDefaultActivityOutputMapper, Apply; instance/scopes.go WorkingDataScope; instance/taskinst.go SetWorkingData, GetWorkingData")],
  tech=("path-sensitive abstract interpretation over go/ssa of the resolvers, scopes and default mapper, with the name asked for kept as the sequence of parts it is put together from and the value as an opaque token",
  "Every path, for each kind and form of reference; splitting a reference into its parts is up to the core library.")),
P("C39", "A test request runs what it describes",
  "A start request of the flow tester runs its flow with the attributes it gives, or else with its data; a restart or resume request runs on from its state with its data, and is refused with an error if it has none. "
  "Each is run once, as what it is, with the patch and interceptor it gives, and is answered with the id of the flow, or with an error if it can't be read or run. "
  "A patch or interceptor given for a run is made ready and is the one of that run, an earlier one stays if none is given, and each of its overrides applies to the task it names and to no other.",
  ["inputs", "fault_sequences", "configurations"], "every request, with and without data, attributes, state, patch and interceptor, every list of overrides, and every failure of a step",
  "The tests start no flow by a request; nothing tests a failed run, a request without state, or overrides among others.",
  ["tester/request.go", "tester/service.go", "instance/exec.go", "support/patch.go", "support/interceptor.go"],
  [("flow tester", "tester/request.go StartFlow, RestartFlow, ResumeFlow; tester/service.go StartFlow, RestartFlow, ResumeFlow; instance/exec.go ApplyExecOptions; support/patch.go Patch.Init, GetPatch, GetInputMapper, GetOutputMapper; support/interceptor.go Interceptor.Init, GetTaskInterceptor")],
  tech=("path-sensitive abstract interpretation over go/ssa of the request handlers and the overrides; every step of a request fails or succeeds, and one tracked value or override among arbitrary others is followed",
  "Every path, for each kind and shape of request; what the runner does with it is C01 - C04, reading the body is up to the standard library.")),
]
NA = []
