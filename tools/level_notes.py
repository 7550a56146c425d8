COMMON = " Seeded search over a finite number of simulated runs: a violation is real and replayable, silence is evidence and not proof."
NOTE = {
 "C01": "Real save/load code over simulated devices; interleaved clients, short writes, failures and process deaths; reference model is a map from path to last acknowledged content." + COMMON,
 "C02": "Saves cut by crashes, errors and full disks at drawn bytes, and complete files cut at drawn positions; oracle is the set of complete contents ever saved." + COMMON,
 "C03": "An I/O error at a drawn open, write, flush, close or read of a save or load; oracle is error surfaced, handles closed, object unchanged, retry complete." + COMMON,
 "C04": "Real HDF5 files; crash or error at a drawn dataset write, close, rename or delete, unfinished files torn; oracle is the set of complete old and new values." + COMMON,
 "C05": "Real tracker over stub or real inner backends that fail; raw-data file compared with a reference list of records after every call." + COMMON,
 "C06": "Real recorders over stub functions that fail, yield and store artifacts; reference model is a list of entries per recorder." + COMMON,
 "C07": "Real optimizers' history machinery over stub cost functions interleaved evaluation by evaluation; reference list of evaluations." + COMMON,
 "C08": "Real augmentations over stub functions; reference list of side effects." + COMMON,
 "C09": "Real base classes over stub execution engines; reference counters and execution order." + COMMON,
 "C10": "Real mixed simulation over a stub or real native engine; reference is operation-by-operation application." + COMMON,
 "C11": "Real estimation over stub backends returning drawn measurements; reference is the exact average per task." + COMMON,
 "C12": "Real ansatz machinery over scripted ansatzes; reference is a freshly built ansatz with the same settings." + COMMON,
 "C13": "Real seeded operations interleaved with other draws; reference is the same operation alone." + COMMON,
 "C14": "Real sampling code over adversarial random generators; exact counting oracle." + COMMON,
 "C15": "Real library under interleaved clients sharing objects; reference is each client alone." + COMMON,
 "C16": "Real state and distribution objects under drawn histories; reference is a plain copy of the amplitudes." + COMMON,
 "C17": "Real workflow steps in a simulated directory, killed or hit by I/O errors and rerun; reference is one uninterrupted run." + COMMON,
 "C18": "Real step under a simulated clock that is stepped and skewed; reference is simulated elapsed time." + COMMON,
}
