"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = dict(
    C01="runtime monitor: round-trip oracle on the real back ends over generated configurations",
    C02="runtime monitor: differential check of every analysis against an independent reference model",
    C03="runtime monitor: differential check of every synthesis against an independent reference model",
    C04="runtime monitor: cross-implementation agreement on the same recorded inputs",
    C05="runtime monitor: reference model and analysis as oracles for flm_to_analysis over all J_max",
    C06="runtime monitor: admissibility identity evaluated per degree on every generated kernel set",
    C07="runtime monitor: closed-form kernels as oracle for all filter generators",
    C08="runtime monitor: exact rational arithmetic as oracle; support and edge-degree probes",
    C09="runtime monitor: shape oracle on outputs and helpers; rejection probes on perturbed shapes",
    C10="runtime monitor: Parseval conservation checker over recorded coefficients",
    C11="runtime monitor: metamorphic linearity checker over triples of executions",
    C12="runtime monitor: adjoint (dot-product) identity on autodiff results",
    C13="runtime monitor: metamorphic checker between reality on and off",
    C14="runtime monitor: metamorphic checker between the two storage resolutions",
    C15="runtime monitor: metamorphic rotation checker",
    C16="runtime monitor: byte-level argument snapshots, interleaved call histories, thread stress",
    C17="runtime monitor: with/without/reused precomputes compared, token tracking of recursion precomputes",
    C18="runtime monitor: hostile requests, exception observer",
    C19="runtime monitor: modulus relation between paired executions and the reference model",
    C20="runtime monitor: orientation-spectrum checker on every returned scale",
    C21="runtime monitor: single-degree probes at scale edges with silence/presence checker",
    C23="runtime monitor: executions under jit/vmap with traced kernels against the reference model",
    C24="runtime monitor: metamorphic checker over spellings of the same request",
    C25="runtime monitor: reference definition on s2fft's HEALPix quadrature as oracle for arbitrary maps",
    C22="runtime monitor: omitted-argument executions against explicit ones and the reference model",
)
NOTE = ("Exploration: the property held on every execution observed (counts in the evidence file); configurations "
        "are drawn from the domain with forced corner cases, so absence of violations is evidence, not proof. "
        "Trusts numpy, s2fft, jax, torch and ducc0, and the reference model in vmon/ref.py.")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./check --selftest",
         checks=[dict(property=p["id"], quick_cmd=f"./check {p['id']} --tier quick",
                      thorough_cmd=f"./check {p['id']} --tier thorough",
                      evidence_file=f"evidence/{p['id']}.json", technique=TECH[p["id"]], level="exploration",
                      level_note=NOTE) for p in props],
         not_applicable=[],
         notes="No hooks are needed in /repo: the monitors observe public entry points from outside.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
