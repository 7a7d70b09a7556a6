"""Snapshots, serialization and rebuilding: C30, C31, C32."""
from props_engine import P as _P
SNAP = ("path-sensitive abstract interpretation of the snapshot builders over go/ssa with one tracked part of a flow",
  "Every path of the functions that build a snapshot; the tracked task, link, attribute, subflow or work item belongs to the main flow or to a subflow and every other part is arbitrary.")
SER = ("path-sensitive abstract interpretation of the marshal and unmarshal functions with a model of encoding/json over the declared keys, and a type-level field check",
  "Every path of the functions that write a flow instance and of those that read one, for the tracked task, link, subflow and work items; the encoded and decoded representations are compared key by key.")
STEPS = ("path-sensitive abstract interpretation of the snapshot rebuilding over go/ssa with a tracked change in up to two recorded steps",
  "Every path for any number of steps and changes; the tracked task, link, attribute, status, subflow or work item is added, updated or removed in one or two of the steps, everything else is arbitrary.")


def P(*a, tech):
    return _P(*a, tech=tech)


PROPS = [
P("C30", "A snapshot shows the whole state of the flow",
  "The snapshot of a running flow holds the identity, flow URI and status of the flow and of each of its subflows, the host of each subflow, and each of their attributes, tasks and links exactly once with its current status and value. "
  "It holds every queued work item once, in the order of the queue, with the flow and the task it belongs to. "
  "Taking a snapshot changes nothing of the flow.",
  ["histories"], "every state a running flow and its subflows can be in, and every path of the functions that build the snapshot",
  "A part that is left out or attached to the wrong flow shows only in a snapshot of a flow that has such a part; the tests take none and compare none.",
  ["instance/ind_instance.go"],
  [("snapshots", "instance/ind_instance.go Snapshot, populateBaseSnapshot")], tech=SNAP),
P("C31", "A flow that is written and read again is the same flow",
  "A flow instance that is serialized and restored has the same id, flow URI, status, attributes, tasks, links and subflows, with the same states. "
  "Its work queue holds the same items in the same order, each for the task of its own flow, and the numbers given to new work items and subflows continue after those in use. "
  "Whatever can't be read or resolved is reported as an error.",
  ["histories", "crash_points"], "every state of an instance at which it is written, and every path of the functions that write and read instances",
  "The tests restore no instance with queued work, subflows or links; a key that is written under one name and read under another, or an order that is reversed, is silent.",
  ["instance/instance_ser.go"],
  [("serialization", "instance/instance_ser.go MarshalJSON, UnmarshalJSON, init")], tech=SER),
P("C32", "The snapshot rebuilt from the steps is the state after the last one",
  "In the snapshot that is built from the recorded steps of a flow, the most recent change of each attribute, task, link, work item and of the status of the flow and of each of its subflows decides, and what was removed last is not part of it. "
  "Each subflow is there once with the task that created it, every remaining part once, and the work items are in the order of the queue. "
  "The recorded steps are not changed.",
  ["histories"], "every history of recorded steps, and every path of the functions that rebuild the snapshot",
  "The result depends on which changes of the same part occur in which steps; the tests rebuild no snapshot.",
  ["state/util.go"],
  [("rebuilding", "state/util.go StepsToSnapshot")], tech=STEPS),
]
NA = []
