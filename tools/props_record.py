"""The recorded history of a flow: C26, C27 ..."""
from props_engine import P as _P
OWED = ("compositional typestate dataflow (owed/told obligations between state changes and recorder notifications) by path-sensitive abstract interpretation over go/ssa",
  "Every function that changes recorded state is analysed on its own over all paths; an obligation left open by an unexported function is carried to its callers. Values are compared symbolically. "
  "Which notification belongs to which kind of state is a table in the checker.")
STEP = ("path-sensitive abstract interpretation of each recording method over go/ssa, comparing its symbolic effect on the step with the specified one",
  "Every path of every method of every implementation that records; what the step holds before and the arguments are arbitrary. Maps are abstract: what is looked up, stored and deleted under which symbolic key.")


def P(*a, tech):
    return _P(*a, tech=tech)


MODE = ("path-sensitive abstract interpretation over go/ssa, one run per recording mode and recorder configuration",
  "Every path, for each of the recording modes with and without a recorder; the configuration, the recorder's answers and the flow are arbitrary. The table of what each mode records is part of the checker.")
N = "instance/instance.go"
PROPS = [
P("C26", "Every change of a flow's state is reported to the recorder, and nothing else",
  "Every change of a flow's state - flow, task and link status, attributes, tasks and links entered or left, subflows started, work queued or taken - is reported to the flow's recorder, for the very flow it belongs to and with the new value, whatever path the engine takes. "
  "Nothing is reported as entered, left, queued or started that wasn't. "
  "Exempt are the restoring of a serialized flow, attributes without a value, and the work item a flow stopped by its step limit doesn't execute.",
  ["histories", "programs"], "every path of every function that changes recorded state",
  "A change that is not recorded only shows when a run is rebuilt from its steps, and then only for the path that caused it.",
  [N, "instance/ind_instance.go", "instance/taskinst.go", "instance/linkinst.go", "instance/instance_chg.go"],
  [("changes of recorded state", N + " SetStatus, SetValue, findOrCreateTaskInst, releaseTask; instance/ind_instance.go scheduleEval, DoStep, newEmbeddedInstance; instance/taskinst.go, linkinst.go SetStatus")], tech=OWED),
P("C27", "The recorder keeps each reported change in the current step, where it belongs",
  "Each reported change is held by the step being recorded, with its value, under the id of its flow and of the task, link, attribute or work item it belongs to, and without losing an earlier change of the same step. "
  "What is held is a copy of the reported value where the value can still change. "
  "When a step is handed out for good, the next one starts empty and with a higher number.",
  ["histories", "inputs"], "every path of every method of every recorder, for any content of the step and any reported change",
  "A change that overwrites, aliases or misplaces another one needs the right two changes in one step.",
  ["instance/instance_chg.go"],
  [("recorder", "instance/instance_chg.go SimpleChangeTracker")], tech=STEP),
P("C28", "The recording mode that is configured decides what is recorded",
  "With a recorder, a snapshot is recorded after each step exactly in the modes that record snapshots, and the step exactly in those that record steps, also if recording the other one failed; without one nothing is recorded and nothing fails. "
  "The mode in force is the configured one, or the one its two legacy settings stand for, and changes are tracked exactly if it records steps. "
  "An unknown mode is refused, and a refused initialization doesn't leave the action looking initialized.",
  ["configurations", "fault_sequences"], "every recording mode and setting, with and without a recorder, for every answer of the recorder",
  "Modes, settings and recorder failures multiply, and the tests only read the names of modes.",
  ["instance/recorder.go", "instance/instance_chg.go", "state/status.go", "action.go", "ondemand/action.go"],
  [("recording mode", "instance/recorder.go RecordState; action.go, ondemand/action.go Initialize; state/status.go; instance/instance_chg.go EnableChangeTracking")], tech=MODE),
]
NA = []
