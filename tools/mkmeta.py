"""Writes properties.jsonl and MANIFEST.json from the one list below (committed output, run by hand)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def P(id, title, statement, over, text, tests, files, mech, observe, state=(), na=None, note=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None),
                _na=na, _note=note)


L = [
P("C01", "Distributed vector transposition is an exact, invertible permutation",
  "For every number of ranks, element type and timing of the network, turning a Hilbert vector distributed along spin-down into one distributed along spin-up gives each rank exactly the elements of the transposed global matrix that belong to it, and turning it back gives every rank exactly its original slice. A shape the scheme does not support is refused on every rank before any rank waits for another. If a rank or a transfer fails, no surviving rank returns a wrong slice.",
  ["schedules", "fault_sequences", "configurations"],
  "all rank counts, slab shapes, element types, communicators, message orders/delays, rank crashes and failed collectives",
  "the only test round-trips integers on one rank",
  ["edpyt/vector_transpose.py"], [("pack, all-to-all, unpack", "collect_dw, collect_up")], ["return values on every rank", "whether a rank blocks"]),
P("C02", "Hamiltonian-vector product equals the dense Hamiltonian, serial or distributed",
  "On every rank, the distributed Hamiltonian-vector product returns exactly that rank's slice of the dense product H*v and leaves the input vector as it was, for every number of ranks that divides the spin-down dimension and every network timing; sectors or rank counts that are not supported are refused on every rank. The serial product gives H*v for any number of client threads sharing one operator. A result handed out earlier never changes because of a later product.",
  ["schedules", "fault_sequences", "inputs"],
  "all Hamiltonians, sectors, rank counts, vectors, sequences of products, network timings and failures, client interleavings",
  "the MPI test of the product is commented out; serial tests use one vector once",
  ["edpyt/matvec_product.py", "edpyt/vector_transpose.py", "edpyt/psparse.pyx", "edpyt/ham_hopping.py"],
  [("up product, transpose, down product, transpose back", "_matvec_operator_mpi"), ("accumulating operator list", "_matvec_operator")],
  ["product on every rank", "input vector after the call", "earlier results"]),
P("C03", "Distributed Lanczos: ranks agree and find the Krylov ground state",
  "All ranks of a distributed Lanczos run stop at the same iteration with the same tridiagonal coefficients; these are the coefficients of H in the Krylov space of the global start vector, their lowest eigenvalue is the ground energy of that space, and the per-rank slices of the returned ground vector form its normalised eigenvector. A start vector that is zero as a whole is reported as such on every rank; one that is zero on some ranks only is not. When a rank or collective fails, no surviving rank returns wrong coefficients.",
  ["schedules", "fault_sequences", "inputs"],
  "all Hamiltonians, start vectors, rank counts, stopping parameters, network timings and failures",
  "the distributed test needs mpirun and a fixed matrix; on one rank none of the reductions matter",
  ["edpyt/lanczos.py", "edpyt/tridiag.py", "edpyt/matvec_product.py"],
  [("reductions of norms and overlaps", "_sl_step_mpi"), ("stopping rule", "build_sl_tridiag"), ("second pass", "sl_solve")],
  ["coefficients, energies and vectors on every rank"]),
P("C04", "Occupation counts are right, distributed or shared, and read-only",
  "For every sector, memory order, weighting and number of ranks dividing the spin-down dimension, the spin occupations reported for a set of eigenvectors are those of the vectors, identical on every rank; the thermal occupation is their Boltzmann average. Counting leaves the caller's eigenvectors (data and shape) untouched, also while other clients use them.",
  ["schedules", "fault_sequences", "inputs", "histories"],
  "all sectors, eigenvector sets, memory orders, weights, rank counts, network timings and failures, client interleavings",
  "the test uses product states, one rank, one call",
  ["edpyt/observs.py"], [("slab contraction and reduction", "_get_evecs_occupation_mpi"), ("view instead of copy", "_get_evecs_occupation")],
  ["counts on every rank", "eigenvector array after the call"]),
P("C05", "Distributed nano-DMFT Green's function equals the dense serial one",
  "With the inequivalent impurities distributed over ranks, each rank's local Green's function, Weiss field, hybridisation and site occupations equal those computed densely from the full lattice with all self-energies, for every placement of the inequivalent sites, magnetic or not, and every network timing. Ranks never end up waiting for collectives others do not join. A failure during an occupancy calculation leaves the chemical potential as it was.",
  ["schedules", "fault_sequences", "configurations"],
  "all lattices, site equivalences, spin structures, rank counts, query sequences, network timings and failures",
  "nothing in the test suite covers this module",
  ["edpyt/nano_dmft.py", "edpyt/integrate_gf.py"],
  [("gather of self-energies and occupations", "_get_sigma_method, _get_occps_method"), ("slice of inequivalent sites per rank", "_get_idx_world")],
  ["Green's function, hybridisation and occupations on every rank", "chemical potential after a failure"],
  [("mu", "chemical potential", "Gfloc.mu")]),
]
NA = []

try:
    from mkmeta_more import MORE, NA_MORE  # noqa
    L += [P(*a, **k) for a, k in MORE]
    NA += [P(*a, **k) for a, k in NA_MORE]
except ImportError:
    pass


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in L + NA:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in L + NA:
        i = p["id"]
        if p["_na"]:
            na.append(dict(property=i, reason=p["_na"]))
        elif not os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
            na.append(dict(property=i, reason="check not built yet"))
        else:
            cmd = f"PYTHONPATH=. {PY} -m sim.harness check {i}"
            checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=cmd + " --tier thorough", evidence_file=f"evidence/{i}.json",
                               technique="deterministic simulation with fault injection (seeded)", level="exploration",
                               level_note=p["_note"] or "Seeded search over simulated schedules and faults of the real code against an independent reference; a clean run is evidence for the runs made, not a proof. Trusts the stand-ins listed in the evidence file."))
    m = dict(version=1, setup_cmd=f"PYTHONPATH=. {PY} -m sim.harness setup", checks=checks, not_applicable=na,
             notes="Checks build a private copy of /repo's current tree under /verif/.cache and rewrite it at import; /repo has no hooks.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
