#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = (" Everything the specification predicts is compared exactly (integers, or opaque byte tokens); "
          "TLC gives the verdict on every recorded behaviour. Trusts the Python drivers that record, TLC, MPI and NumPy.")
C = {
 "C01": ("TLA+ geometry spec (Domain.tla); TLC judges recorded decompositions of the real code",
   "Bounded: every 1-d edge list over a small lattice plus random 1-3d grids, all smoothing up to twice the box, 1-4 ranks (1-8 thorough), chunked inputs."),
 "C02": ("TLA+ protocol model (LayoutMC) checked by TLC + TLC trace validation of recorded exchanges",
   "The delivery protocol is model checked for all target tables and message orders at 2-3 ranks; real exchanges are validated row by row, including one-sided faults."),
 "C03": ("TLA+ protocol model (LayoutMC) checked by TLC + TLC trace validation of recorded gathers",
   "Every reduction mode, dtype class, memory order, output buffer and rank distribution drawn at random; reductions evaluated exactly in TLA+ on integers."),
 "C04": ("TLA+ ownership state machine (BalanceMC) checked by TLC, TLC-enumerated histories replayed, traces validated",
   "All operation histories of length 2 (3 thorough) over the model's alphabet plus random longer ones on random grids; balance bound model checked for every weight vector in scope."),
 "C05": ("TLA+ window spec in exact rational arithmetic (Window.tla); TLC judges every painted cell recorded from the real code",
   "Spline windows are decided exactly on dyadic positions (1-4 dims, any support, per-particle scale, folding, memory layouts); tabulated windows by product structure and slope."),
 "C06": ("TLA+ window spec (Window.tla); TLC judges recorded readouts and paint/readout transposes",
   "Same exact window specification as painting; the transpose is compared cell by cell for every window."),
 "C07": ("TLA+ relations over recorded deposits (conservation, shift, swap, tuned=generic, support), judged by TLC",
   "Relations hold for arbitrary positions and transforms, values compared in fixed point (2^-24 of the case scale)."),
 "C08": ("TLA+ model of the seed spiral and mode sources (WhiteNoiseMC) checked by TLC + TLC validation of recorded spectra and blocks, bit for bit",
   "Every mode's source is model checked for all mesh sizes up to 5 (7 thorough); real spectra are compared bit for bit over random meshes, blocks, memory layouts and precisions."),
 "C09": ("TLA+ model of the seed spiral (WhiteNoiseMC, scale invariance) checked by TLC + TLC validation of recorded spectra of two sizes",
   "Scale invariance of the design is model checked; real spectra assembled from differently stored blocks are compared bit for bit over random pairs of even sizes and seeds."),
 "C10": ("TLA+ model of the inside-out numbering (InvariantMC) checked by TLC + TLC validation of recorded mode tables and queries",
   "The order and its closed formula are model checked in 1-3 (4) dimensions; the real numbers of all modes of cubes and of random mesh queries are judged against the guarantees only, whatever the order inside a shell."),
 "C11": ("TLA+ state machine of the weak plan cache (PlanCache) checked by TLC; TLC-enumerated histories replayed with real mesh objects; traces validated by TLC",
   "All create/drop/collect histories of length 5 (6 thorough) with garbage lingering on any ranks, on 2-4 (1-6) ranks, over pairs of configurations differing in one attribute; a hang is a violation."),
 "C12": ("TLA+ model of the block distribution and domain claims (MeshMC) checked by TLC + TLC validation of recorded mesh objects",
   "Tiling, ownership and signed coordinates model checked for every small mesh and process mesh; recorded blocks, coordinates, point lists and nearest-cell routing of real mesh objects on 1-4 (1-8) ranks judged exactly."),
 "C13": ("TLA+ window spec in exact rational arithmetic (Window.tla); TLC judges every cell and value of recorded distributed runs",
   "The distributed result itself is predicted exactly by the specification (not only compared with a serial run), on every process mesh of 1-4 (8) ranks; tabulated windows are compared with the serial result."),
 "C14": ("TLA+ state machine of collective element access (ElementMC) checked by TLC + TLC validation of recorded write/read histories",
   "Hermitian symmetry and locality of writes model checked for every history on small meshes; recorded histories of real fields (real, compressed, full; 1-4 (8) ranks, any process mesh) judged element by element."),
 "C20": ("TLA+ message protocol of a synchronisation (CoarrayMC) and co-array state machine (CoarrayHist) checked by TLC; TLC-enumerated histories replayed, traces validated by TLC",
   "Matching and termination model checked for every mix of 2 (3) operations per image under eager and rendezvous sends; enumerated and random histories of real co-arrays on 1-4 (8) images judged cell by cell."),
 "C21": ("TLA+ cloud-in-cell and discrete Fourier specifications (Window.tla, Fourier.tla) judging recorded legacy calls",
   "Bounded: random dyadic positions in 1-3 dimensions, any period, mode, transform and memory layout; both the compiled and the array version decided exactly by the same specification; the older mesh class on 1-4 (6) ranks cell by cell and mode by mode."),
 "C16": ("TLA+ exact discrete Fourier transform (Fourier.tla, model checked) judging recorded transforms and conversions",
   "Exact in Z[zeta12] on meshes whose sides divide 12; any other side by point sources (exact phases) and round trips; all kinds, targets and chains on every process mesh of 1-4 (8) ranks."),
 "C15": ('TLA+ specification of global views (Views.tla) checked by TLC + TLC validation of recorded views',
   'Inverse and composition laws model checked on every block distribution of small meshes; recorded ravel/unravel/preview/ctranspose of real fields on every process mesh of 1-4 (8) ranks judged element by element.'),
 "C17": ('TLA+ specification of Fourier resampling over the exact transform (Resample.tla, Fourier.tla), checked by TLC + TLC validation of recorded resamplings',
   'Design laws (mean, Hermitian, every shared mode once, up-and-back) model checked for all pairs of meshes with sides up to 5-8; recorded resamplings between random meshes, kinds, precisions and process meshes on 1-4 (8) ranks judged mode by mode or cell by cell.'),
 "C18": ('TLA+ specification of global reductions and adjoints over the full mesh (Reduce.tla), checked by TLC + TLC validation of recorded calls',
   'Half-stored weights, Parseval and transpose laws model checked on all small meshes; recorded sums, norms, inner products, metrics and every vjp/jvp on every process mesh of 1-4 (8) ranks judged exactly from the recorded element values.'),
 "C19": ('TLA+ state machine of fields over shared memory (FieldMem.tla), checked by TLC against a mechanism of strided views; TLC-enumerated histories replayed and all recorded histories validated by TLC',
   'All histories of 3 (4) steps of the memory model; sampled and random ones replayed on real fields on 1-4 (8) ranks with the contents of every live field judged after every step; every visit of applied functions judged with its coordinates.'),
 "C22": ('TLA+ definition of the line integral in exact rational arithmetic (Lic.tla, laws checked by TLC) judging recorded images',
   'Laws model checked for every small vector field; recorded images of real fields on every process mesh of 1-4 (8) ranks judged pixel by pixel, exactly for the nearest and linear windows, against one rank for others.'),
 "C23": ('TLA+ specification of the legacy factors, shells and coordinates (Legacy.tla, laws checked by TLC) and of the quadratic window (Window.tla) judging recorded calls',
   'Bounded: sides 2-8, every process mesh of 1-4 (6) ranks of the installed FFT library, random integer spectra mode by mode; quadratic deposits and readouts exactly.'),
 "C24": ('TLA+ barrier protocol (Rotator.tla) checked by TLC for safety and termination + TLC validation of recorded turns',
   'All interleavings of 3 (4) ranks and 2 turns model checked; recorded orders of entries and exits of 1-4 (8) ranks with random delays and exceptions; a hang is a violation.'),
}
EXTRA = os.path.join(ROOT, "tools", "manifest_more.json")
def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")) and i in C:
            t, n = C[i]
            checks.append(dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="VERIF_TIER=thorough bin/check " + i,
                               evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=n + COMMON))
        else:
            na.append(dict(property=i, reason="no check built yet (the family applies; see DESIGN.md)"))
    m = dict(version=1, setup_cmd="bin/check setup", checks=checks, not_applicable=na,
             notes="No hooks: everything is observed through pmesh's public interface. Specification language: TLA+ (TLC).")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
if __name__ == "__main__":
    main()
