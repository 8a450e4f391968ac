"""How much each check runs.

PLAN    property -> tier -> (generated scenarios per shard, rounds of 8 shards)
MODELS  tier -> property -> [(configuration in mc/, tour translation of gen/tours.py or None)]
"""
PLAN = {"C%02d" % i: {"quick": (24, 3), "thorough": (40, 12)} for i in range(1, 21)}
PLAN["C17"] = {"quick": (6, 2), "thorough": (8, 8)}

QUICK = {
    "C01": [("MCRegistry", "Registry"), ("MCRegistry_mixed", "Registry")],
    "C02": [("MCRegistry_mixed", "Twins")],
    "C03": [("MCFixReal", None), ("MCFrames", "Frames")],
    "C04": [("MCLoads", "Force")],
    "C05": [("MCJoints", "Rows")],
    "C06": [("MCJoints", "Rows")],
    "C07": [("MCDynamics", "Steps"), ("MCDynamics_wiring", "Steps")],
    "C08": [("MCLimits", "Limits"), ("MCSolver", None), ("MCDynamics", "Steps")],
    "C09": [("MCDynamics_wiring", "Steps")],
    "C10": [("MCDynamics", "Steps"), ("MCDynamics_wiring", "Steps")],
    "C11": [("MCProtocol", "Protocol"), ("MCProtocol_mixed", "Protocol"), ("MCIntegrators", "Swings")],
    "C12": [("MCSolves_ge", "Solves"), ("MCSolves_gs", "Solves"), ("MCSolves_cg", "Solves"), ("MCLimits", None),
            ("MCSolver", "Systems")],
    "C13": [("MCMatrix", None), ("MCMatrix_tour", "Matrix")],
    "C14": [("MCSparse", None), ("MCSparse_tour", "Sparse")],
    "C15": [("MCDynamics", "Steps")],
    "C16": [("MCIntegrators", None), ("MCDynamics", "Steps")],
    "C17": [("MCDynamics_wiring", "Steps")],
    "C18": [("MCDynamics", None)],
    "C19": [("MCStates", None), ("MCStates_tour", "States"), ("MCMatrix_tour", "Matrix"), ("MCSparse_tour", "Sparse")],
    "C20": [("MCProfile", "Batches"), ("MCProfile_wide", None)],
}
THOROUGH = dict(QUICK)
MODELS = {"quick": QUICK, "thorough": THOROUGH}
