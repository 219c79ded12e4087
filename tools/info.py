import json
proof="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24".split()
info={"level":{p:"proof" for p in proof},
"bounded":{"C11":["traverse::AllocatingBreadthFirstTraverser (all of it)"],"C13":["traverse::AllocatingBreadthFirstTraverser::size_hint"]},
"technique":{"default":"contracts on the compiled code (MIR), discharged function by function with z3; bounded search with a replay harness where a function is not within reach"},
"note":{"default":"Functions listed as proved in the evidence satisfy their contract for all inputs; the ones listed as bounded stand-ins are only searched with the replay harness within the stated bound."},
"trusted":["rustc nightly front end (the MIR that is exported is the MIR that is compiled)","exporter/exporter.rs and drv/ (symbolic execution and obligation generation)","z3","models of std primitives in drv/prims.py: Rc, Weak, Cell, RefCell, Option/Result via their MIR, NonZero, mem::replace","drv/world.py: well-formedness of the initial forest (the invariant C01 establishes)"],
"assumptions":["Drop, Clone and PartialEq of the user's data do not re-enter dendron and do not unwind","counters stay below 2^62: a program cannot hold more live references","single thread: none of the types is Send or Sync"],
"explain":{}}
json.dump(info,open('/verif/drv/info.json','w'),indent=1)
