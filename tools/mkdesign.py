"""Writes DESIGN.md: the hand-written parts below plus the laws (from props/) and the planted bugs (from seeded/ and tools/bug_results.json)"""
import ast, json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INTRO = """# Design

Everything is decided by generated-input search (property-based testing): Hypothesis (vendored, see `vendor/`) draws cases, an
explicit oracle judges what the code in /repo does with them, failures are shrunk and written as replay files. No source text is
inspected anywhere, so refactorings cannot trip a check.

## Machinery

* `check.py PXX --tier quick|thorough [--seed N] [--law NAME] [--scale X]` rebuilds the native parts of /repo (`/opt/vp/build.sh ext`, a no-op when nothing
  changed), imports `props/PXX.py`, spreads its laws over worker processes (`harness/worker.py`), aggregates the results, writes
  `evidence/PXX.json` and prints `VIOLATION property=PXX replay=...` for every law that failed. `check.py --replay FILE` runs one stored case.
* A property is a module with several *laws*. A law is a generator (draws a JSON-able case: shapes, geometry numbers, options, and a seed for bulk
  array data) and an oracle function that runs the code and compares. Cases are therefore small, shrinkable and replayable.
* `harness/geo.py` generates geometries: cylindrical (car, cea, mer), zenithal (tan, zea, arc, sin, stg), full-sky in all variants and flips,
  offsets of crval/crpix, both signs of cdelt, sizes from 1 pixel up. `harness/sht.py` has the slow reference spherical harmonics; `harness/fakempi.py` simulates
  any number of MPI ranks with threads, since mpi4py is not installed.
* Law policy: an exception on valid input is a violation; so is death by a signal or more than 240 s of CPU for one case (all laws run
  in child processes). An error in the harness itself gives exit code 2, never a VIOLATION line.
* A case counts as non-trivial unless the law marks it so, by the rule written next to the law; the evidence file gives the counts, the rules and samples.
* quick: 1-15 s per property; thorough: the same laws with about 20 times the cases and larger sizes. The runs are deterministic in VERIF_SEED.
* Oracles compare with tolerances derived from the dtype and the conditioning of the operation, never with stored reference outputs, so a numerically
  different but correct implementation passes.

* `harness/methods.py` gives ten properties a `methods` law: the methods of `enmap.ndmap` and `enmap.Geometry` must forward to the functions the other laws check,
  with every argument in its place (arguments are drawn away from their defaults).
* Leading dimensions: maps have none, one or two of them in the laws of the map properties, and threads vary between cases where the code takes a thread count.
* `tools/mutate.py` (Python) and `tools/mutc.py` (C) make simple mutants of a file and run the checks on a copy; survivors were read one by one. What they showed was
  mostly that ranges were too narrow (leading dimensions, scales of weights, negative steps, sizes above the chunk length), not that oracles were too weak.

What this cannot settle: these are finite searches. Sizes are small (maps up to a few thousand pixels, lmax mostly below 20 and up to a few
hundred in `high_l` type laws), so faults that only appear for large sizes (e.g. 32-bit overflow) are out of reach. `pixell/device.py` and `pixell/sqlite.py`
are not installed by meson.build and cannot be imported from the built package. MPI runs through simulated communicators only. Optional dependencies that are not
installed (pyfftw, mpi4py, ephem, enlib, libsharp) leave their code paths uncovered.
"""
exec(open(here+"/tools/design_notes.py").read())
props = [json.loads(l) for l in open(here+"/properties.jsonl")]
res   = json.load(open(here+"/tools/bug_results.json")) if os.path.exists(here+"/tools/bug_results.json") else {}
out = [INTRO, "## Properties\n"]
for p in props:
	out.append("### %s %s\n\n%s\n" % (p["id"], p["title"], NOTES.get(p["id"],"")))
	f = here+"/props/%s.py" % p["id"]
	if not os.path.exists(f): continue
	for n in ast.parse(open(f).read()).body:
		if not isinstance(n, ast.FunctionDef): continue
		for d in n.decorator_list:
			if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "law":
				kw  = {k.arg:ast.literal_eval(k.value) for k in d.keywords if isinstance(k.value,ast.Constant)}
				doc = (ast.get_docstring(n) or "").split("\n\n")[0].replace("\n"," ")
				out.append("* `%s` (%s quick cases%s)%s" % (n.name, kw.get("quick","?"), "; non-trivial: "+kw["rule"] if "rule" in kw else "", ": "+doc if doc else ""))
	out.append("")
out.append(FINDINGS)
out.append("## Planted bugs\n\nMade by `tools/bugs/*.py`, run with `tools/trybugs.py` (results in `tools/bug_results.json`).\n\n| id | property | needs | breaks | result |\n|---|---|---|---|---|")
for d in sorted(glob.glob(here+"/seeded/*/meta.json")):
	m = json.load(open(d)); id = os.path.basename(os.path.dirname(d))
	out.append("| %s | %s | %s | %s | %s |" % (id, m["property"], m["needs"], m["what_it_breaks"], res.get(id,"?")))
open(here+"/DESIGN.md","w").write("\n".join(out)+"\n")
