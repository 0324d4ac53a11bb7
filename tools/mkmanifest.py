"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "Trusts the reference stabilizer simulator qv/sim.py (cross-checked against Aer) and the reference geometry qv/model.py."
ADEQ = "Bounds and budgets: see DESIGN.md; a pass means no counterexample among the generated cases."
T = {
    "C01": ("property-based testing: exact symbolic-outcome simulation against ideal plaquette projections", "Each case covers all input states (Choi states) and all outcome branches. " + SIM),
    "C02": ("stateful model-based testing against one ideal qubit (symbolic outcomes)", "Each history is checked on every outcome branch. " + SIM),
    "C03": ("property-based testing: resets on reference-entangled scrambled data", "Covers all prior states per case. " + SIM),
    "C04": ("stateful testing against ideal logical projections on Choi states", SIM),
    "C05": ("metamorphic testing: lattice readout against one more perfect round plus logical readout", SIM),
    "C06": ("property-based testing: round-trip and reference parser on generated strings", "No simulator involved; trusts qv/model.py's numbering."),
    "C07": ("generated fault-free histories, invariant and expected value", SIM),
    "C08": ("fault-injection property testing with one symbol per fault", "All fault sets of a case's circuit are covered at once by linearity. " + SIM),
    "C09": ("generated configurations against a reference fault graph", "Trusts qv/model.py, which C08 ties to the circuits."),
    "C10": ("fault-injection property testing: generated fault sets up to (d-1)/2, decoded", SIM),
    "C11": ("property-based testing against two independent optimal matchers", "networkx and dynamic programming as oracles."),
    "C12": ("property-based testing against breadth-first distances and path counts", "Trusts qv/model.py's fault graph, which C09 compares with the decoder's."),
    "C13": ("differential testing against exhaustive class costs", "Dynamic programming over all pairings."),
    "C14": ("stateful and metamorphic testing of decoders", "Differential between fresh and used decoders; no external oracle."),
    "C15": ("stateful model-based testing with exact fractions", "Oracle: Bayes' rule in exact arithmetic."),
    "C16": ("differential testing: repetition qubit and decoder against the 1-D XXZZ ones", SIM),
    "C17": ("generated valid and invalid parameters against the documented rules", SIM),
    "C18": ("stateful differential testing: interleaved against solo runs", SIM),
    "C19": ("stateful model-based testing of registers, differential testing of circuits", SIM),
    "C20": ("generated programs against an ideal circuit (symbolic outcomes)", "Exact on every outcome branch. " + SIM),
    "C21": ("property-based logical tomography on Choi states", "Covers all logical inputs and outcome branches per case. " + SIM),
    "C22": ("property-based testing of whole states against ideal gates", SIM),
    "C23": ("property-based and metamorphic testing with exact fractions", "Decoding itself is decided by C10-C14."),
    "C24": ("generated sweeps against exactly enumerated error rates", "Sampled rates are compared at false-alarm probability 1e-12; trusts Aer's simulation."),
    "C25": ("stateful model-based testing over a scratch directory", "Model keeps every point; trusts the file system."),
    "C26": ("metamorphic testing: with/without slots, noise on slots against hand-placed faults", SIM),
    "C27": ("fault-injection property testing: every circuit location of a generated configuration", SIM),
    "C28": ("property-based testing of whole states against ideal parity copies", SIM),
    "C29": ("property-based testing: generated graphs and programs, drawn figures read back", "Reads matplotlib's artists; pixels are matplotlib's."),
    "C30": ("stateful property-based testing: generated plots on several open figures, read back", "Reads matplotlib's artists; pixels are matplotlib's."),
    "C31": ("stateful fault-injection testing: saves killed, interrupted or out of space at generated points", "Kills happen between Python lines and by file-size limits; power loss is not modelled."),
}
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(line)["id"]
    t, note = T[i]
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s quick" % i,
        "thorough_cmd": "./check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": t,
        "level": "exploration",
        "level_note": note + " " + ADEQ,
    })
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "Python; checks import the code from /repo's working tree, nothing is compiled. No hooks in /repo.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
