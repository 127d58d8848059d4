#!/usr/bin/env python3
"""Writes DESIGN.md from the prose below, units.json, known_findings.json, evidence figures kept in design_figures.json and the planted bugs."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
units = json.loads((V / "units.json").read_text())
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
known = json.loads((V / "known_findings.json").read_text())
figs = json.loads((V / "tools" / "design_figures.json").read_text()) if (V / "tools" / "design_figures.json").exists() else {}
seedres = json.loads((V / "tools" / "seed_results.json").read_text()) if (V / "tools" / "seed_results.json").exists() else {}

HEAD = """# Model checking ceras

ceras is a header-only C++20 deep-learning library: tensors (shared storage), an expression language with
automatic differentiation, variables/placeholders/sessions, layers, losses, optimizers, models, and utilities
(parallel loops, serialisation, compression, data sets, images, code generation). Its 81 reliable tests mostly print;
few of them compare anything. The properties in `properties.jsonl` are the guarantees a user relies on, part by part.

## Method

Every property is decided by **explicit-state / stateless exploration of the real code** (the headers of /repo's working
tree, compiled into an explorer program per property in `harness/`). No separate model is verified on its own: where a
property speaks of histories, a small executable model (the shared buffers of C03, the variables of C16, the update rules
of C17, the twin network of C21, ...) is stepped **in lock-step with the implementation**, and every transition taken in the
model is replayed on and compared with the real objects, so each explored model trace is at the same time a conformance
trace. `evidence/<id>.json` reports states (distinct canonical observations or model states), transitions (operations
executed on the real code), traces validated against the implementation (cases run), and the number of comparisons.

What makes exhaustive enumeration meaningful for numerical code:

* *index behaviour* (which element goes where, which shape, which buffer) is decided by enumerating **all shapes,
  parameters and aliasing patterns within a bound** with generic values: the operators are linear or piecewise linear, so a
  misplaced, dropped or doubled element shows in distinct generic entries;
* *order behaviour* (extrema, kinks, masks, ties) is decided by enumerating **all tuples over a small value alphabet**;
* *scalar functions* are run on a grid that holds the kinks, both signs, the limits of exp and of the number format;
* *state* (reused buffers, accumulated gradients, optimizer state, running statistics, caches) is decided by enumerating
  **all operation histories up to a depth**;
* *schedules* are decided by running the real loops on fibers under a controlled scheduler with happens-before conflict
  detection (C22);
* *crashes* are decided by enumerating every write call and every torn prefix of it, and every truncation of a file (C06, C07, C08, C27, C28);
* *randomness* is decided by scripting the answers of the random engine, so every mask or shift is an enumerated choice (C19, C25).

### Machinery

* `harness/mc.hpp` - the explorer core: a case has a key, a worker process runs cases one after another, a crash, hang, abort or
  sanitizer report kills only that worker; the case is then re-run alone and reported under its key. Counts states by hash.
* `harness/ref.hpp`, `ops*.hpp` - the independent reference: nd-arrays in double, every operator with its definition and its
  exact adjoint written from the mathematics, not from the code.
* `harness/sched.hpp`, `harness/tsi_runtime.cpp` - controlled scheduler and conflict detector: C22's explorers are compiled with
  `-fsanitize=thread` instrumentation but linked with our own runtime; `std::thread` start/join are replaced by fibers.
* `harness/scripted.hpp` - the scripted random engine put in place of `std::mt19937` by a macro before inclusion.
* `harness/codegen*.?pp` - compiles and runs the code the library generates, and interprets it for the graphs.
* `run.py` - builds the explorers of a property from /repo's current tree (cached by a hash of the tree), shards them over the cores,
  re-runs every failure, matches it against `known_findings.json`, writes the evidence and a replay file under `replay/`.
  `python3 run.py <id> --case KEY --unit U` replays one case.
* `tools/regen.sh` - regenerates properties.jsonl, units.json, MANIFEST.json and this file. `tools/mutate.py` - mutation campaigns.

No hook in /repo is needed (MANIFEST `hooks` is empty): everything is reached through the public headers, link-time replacement or macros.

Explorers judge observable behaviour only (values, shapes, storage sharing, files, sets of calls); none of them looks at the text of the sources.

## Properties

"""

TXT = {
"C01": ("tensor.hpp arithmetic, broadcasting", "numpy broadcasting in doubles over copied operands; bystander copies of both operands are watched"),
"C02": ("tensor.hpp/gemm", "the triple loop in double; float tolerance scaled by the length of the sum"),
"C03": ("tensor.hpp, vector.hpp, cached_allocator/buffered_allocator", "a model of slots pointing at shared buffers; sharing is observed by writing through one copy and reading through all others; live ranges are compared pairwise"),
"C04": ("tensor.hpp rearrangements", "index arithmetic on coordinates"),
"C05": ("tensor.hpp reductions", "two-pass definitions in double"),
"C06": ("tensor.hpp stream operators, read/write_tensor, load/save", "round trip, rejection of every losing cut"),
"C07": ("utils/lzw.hpp", "round trip; every cut must be reported"),
"C08": ("session.hpp save/restore/tap, model save/load weights", "snapshots of all variables; crash points of a save by a write() that stops after a prefix"),
"C09": ("operation.hpp, activation.hpp, value.hpp", "the mathematical function in double"),
"C10": ("operation.hpp, activation.hpp", "analytic derivative times upstream gradient, summed over broadcast axes"),
"C11": ("operation.hpp structural operators", "reference value and exact adjoint"),
"C12": ("operation.hpp convolution and pooling", "sliding-window definition and its adjoint; ASan watches every access"),
"C13": ("the shape calculators of all operators, layers and losses", "declared shape against produced shape"),
"C14": ("the whole expression machinery", "reverse-mode differentiation over the enumerated straight-line program"),
"C15": ("operation.hpp buffers, session.hpp, place_holder.hpp", "reference value for the current bindings at each step of the history"),
"C16": ("variable.hpp, regularizer.hpp, session.hpp", "model of shared variable state"),
"C17": ("optimizer.hpp", "the update rules stepped in double"),
"C18": ("loss.hpp", "definition and analytic derivative"),
"C19": ("operation.hpp drop_out, sliding_2d, normalization_batch; config learning phase", "model of masks, shifts and running statistics"),
"C20": ("layer.hpp", "functional reference from the parameters found by role"),
"C21": ("model.hpp", "twin network driven by primitive steps"),
"C22": ("utils/parallel.hpp and all users", "exactly-once bookkeeping, happens-before conflicts, equality of results over cores and orders"),
"C23": ("complex_operator.hpp", "std::complex definitions and their real derivatives"),
"C24": ("operator serializers, computation_graph, utils/id", "the original expression, compared after compiling/interpreting the generated text"),
"C25": ("tensor.hpp random functions, config random_seed", "std distributions evaluated on the same scripted answers; support bounds"),
"C26": ("utils/*, stride iterators, views, place_holder order", "direct definitions"),
"C27": ("dataset.hpp", "the file format (IDX)"),
"C28": ("utils/imageio.hpp, image resize", "the written pixels; parsers for the scaled case; metamorphic relations for resizing"),
}

TAIL = open(V / "tools" / "design_tail.md").read() if (V / "tools" / "design_tail.md").exists() else ""

out = [HEAD]
for p in props:
    i = p["id"]; u = units[i]; where, oracle = TXT.get(i, ("", ""))
    out.append(f"### {i} {p['title']}\n\n")
    out.append(f"* **Code**: {where}.\n* **Technique**: {u['technique']}.\n* **Enumerated**: {u['rule']}.\n* **Oracle**: {oracle}.\n* **Notes**: {u['note'].replace('explicit enumeration of every case within bounds, run on the real code and compared with an independent reference model; each case in a crash-isolated worker under AddressSanitizer. ', '').replace('explicit enumeration of every case within bounds, run on the real code and compared with an independent reference model; each case in a crash-isolated worker under AddressSanitizer.', 'every case in a crash-isolated worker under AddressSanitizer.')}\n")
    if u["assumptions"][2:]: out.append("* **Assumptions**: " + "; ".join(u["assumptions"][2:]) + ".\n")
    f = figs.get(i)
    if f: out.append("* **Cost and coverage**: " + "; ".join(f"{t}: {x['states']} states, {x['transitions']} transitions, {x['cases']} cases, {x['comparisons']} comparisons, {x['wall']} s" for t, x in f.items()) + " (explorers built beforehand or included, 8 cores).\n")
    out.append("\n")
out.append(TAIL)

out.append("## Genuine defects\n\n### Repaired (one `fix:` commit each)\n\n")
fx = known.get("fixed", [])
for x in fx:
    s = x if isinstance(x, str) else str(x)
    out.append("* " + s.replace("fixed: ", "") + "\n")
out.append("\n### Known findings (recorded, not repaired; see known_findings.json)\n\n")
for x in known.get("findings", []):
    out.append(f"* property={x['property']} `{x['id']}`: {x['what']}\n")
out.append("\nThey are left because other behaviour (learning rates divided by batch sizes, the library's examples) is tuned to the present scaling: correcting it "
           "would change every training run. Each finding is matched by the exact factor (right value times the stated factor); any other deviation is a violation.\n")
out.append("\n## Planted bugs\n\n| bug | property | what it breaks | caught by |\n|---|---|---|---|\n")
for d in sorted((V / "seeded").iterdir()) if (V / "seeded").exists() else []:
    if (d / "meta.json").exists():
        m = json.loads((d / "meta.json").read_text())
        out.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {seedres.get(d.name, 'not yet run')} |\n")
(V / "DESIGN.md").write_text("".join(out))
