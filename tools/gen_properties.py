#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the prose stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Decomposition sends each particle exactly to the ranks it touches",
 "For any particle positions, any grid of domains (uneven or empty cells, any assignment of cells to ranks), periodic or not, and any smoothing length, decomposing delivers every particle exactly once to each rank that owns a non-empty domain overlapped by the particle's smoothing box, and to no other rank. "
 "With zero smoothing a particle inside the box therefore reaches exactly one rank, however the particles were spread over the ranks before and in whatever units and extra columns the positions are given.",
 ["inputs", "configurations"],
 "all positions (on edges, outside the box, several periods away), all edge lists, owners, smoothing vectors, dimensions 1..3, rank counts, and initial particle distributions",
 "The tests use 1 to 4 ranks, one uniform grid per test and a handful of positions, mostly one domain per rank with the default assignment; repeated edges, shared ranks, anisotropic or box-sized smoothing and out-of-box positions are barely sampled.",
 ["pmesh/domain.py", "pmesh/_domain.pyx"],
 [("GridND.decompose: left/right domain range of the smoothing box", "pmesh/domain.py:GridND.decompose"),
  ("gridnd_fill: enumerate the patch, drop degenerate domains, de-duplicate ranks", "pmesh/_domain.pyx:gridnd_fill")],
 [("edges", "domain boundaries per axis", "GridND.edges"), ("DomainAssign", "rank owning each domain", "GridND.DomainAssign")],
 ["GridND.decompose(...).exchange(ids)"])

prop("C02", "Exchange moves every item intact, in a fixed order, on all ranks",
 "Exchanging an array over a layout gives each rank exactly the rows of the particles delivered to it, bit for bit, ordered by sending rank and then by original position, for any element type and trailing shape, and identically for every array exchanged over that layout whether packed together or sent one by one; arrays whose element type differs between ranks arrive converted to the type of the first rank. "
 "If on any rank the length (or on a multi-rank layout the trailing shape) does not match, every rank raises an error instead of deadlocking or delivering partial data, and the input arrays and the layout are never modified.",
 ["inputs", "histories"],
 "all layouts, element types (integers, floats, complex, structured, bytes), trailing shapes, strides, packing choices and repeated use of one layout",
 "Tests exchange float and int vectors over a few layouts; they do not vary type, shape, memory order, empty ranks, mismatches on a single rank or re-use of a layout.",
 ["pmesh/domain.py"],
 [("Layout._exchange: take by index then Alltoallv", "pmesh/domain.py:Layout._exchange"),
  ("promote: agree on a dtype and shape", "pmesh/domain.py:promote"), ("pack_arrays", "pmesh/domain.py:pack_arrays")],
 [("indices", "local row of every sent copy, grouped by destination", "Layout.indices"),
  ("sendcounts/recvcounts", "copies to/from each rank", "Layout")],
 ["Layout.exchange", "Layout.get_exchange_cost"])

prop("C03", "Gather returns to each particle exactly its own copies, in order",
 "Gathering data from the delivered copies returns to every original particle the reduction (sum, mean, any, local, or any given binary operation) of exactly the values held by its own copies, in the original local order and type, and returns all copies unreduced when asked for them; a round trip of unchanged data is the identity for 'any' and 'mean', and the copy count times the value for 'sum'. "
 "This holds for any trailing shape and any data type the reduction is defined on (the mean needs a floating type), for user-supplied outputs, for ranks that hold no particles or received none, and a length mismatch on any rank raises on every rank.",
 ["inputs", "histories"],
 "all layouts (including ranks with nothing to send or receive), all reduction modes, element types, shapes and output buffers",
 "Tests gather one float per particle in two or three modes on small uniform layouts; empty ranks, integer means, vector data with operations and user outputs are untested.",
 ["pmesh/domain.py"],
 [("Layout.gather", "pmesh/domain.py:Layout.gather"), ("bincountv", "pmesh/domain.py:bincountv")],
 [("indices", "which original row every returned copy belongs to", "Layout.indices")],
 ["Layout.gather"])

prop("C04", "Every point has one primary owner and balancing keeps it so",
 "At any time each position in the box is primary on exactly one rank, and that is the rank a zero-smoothing decomposition sends it to; this remains true after any sequence of load measurements and rebalancings. "
 "The measured load of a domain is the number of particles (over all ranks) inside it raised to the requested power, and rebalancing gives every domain to exactly one valid rank, identically on all ranks, with the heaviest rank no heavier than the average load plus the single heaviest domain.",
 ["inputs", "histories", "configurations"],
 "all grids, particle distributions, load vectors, powers, and sequences of load / rebalance / query calls on any number of ranks",
 "The tests rebalance one random catalogue once and check a couple of quantities; they do not enumerate load vectors, ties, repeated rebalancing or the agreement between the primary test and the decomposition.",
 ["pmesh/domain.py"],
 [("GridND.isprimary", "pmesh/domain.py:GridND.isprimary"), ("GridND.load", "pmesh/domain.py:GridND.load"),
  ("GridND.loadbalance", "pmesh/domain.py:GridND.loadbalance"), ("GridND.uniform", "pmesh/domain.py:GridND.uniform")],
 [("DomainAssign", "rank of each domain", "GridND.DomainAssign"), ("primary_region", "boxes owned by this rank", "GridND.primary_region")],
 ["GridND.isprimary", "GridND.load", "GridND.loadbalance", "GridND.decompose"])

prop("C05", "Painting adds mass times window to the right cells and nothing else",
 "Painting adds to each mesh cell exactly the sum over particles of mass times the product over axes of the window (or of its derivative along the requested axis, in units of the caller's coordinates) evaluated at the distance between the particle's transformed position and that cell, folding cells by the period where one is set and dropping those outside the local mesh. "
 "Previous contents are kept, no byte outside the mesh view is written, inputs are not modified, and the result does not depend on the order or grouping of the particles, on the numeric type of positions, masses and smoothing scales, or on the memory layout of the mesh.",
 ["inputs", "configurations"],
 "all positions, masses, per-particle scales, window kinds and supports, transforms (scale, shift, period), dimensions, mesh shapes, strides and precisions",
 "Tests paint a few particles with the default transform on contiguous meshes and compare a handful of sums; combinations of scale, shift, period, strides and derivative direction are unsampled.",
 ["pmesh/window.py", "pmesh/_window.pyx", "pmesh/_window_imp.c", "pmesh/_window_generics.h", "pmesh/_window_tuned_cic.h", "pmesh/_window_tuned_tsc.h", "pmesh/_window_tuned_pcs.h", "pmesh/_window_tuned_nnb.h"],
 [("generic paint", "pmesh/_window_generics.h"), ("tuned CIC/TSC/PCS/NNB", "pmesh/_window_tuned_*.h"), ("dispatch", "pmesh/_window_imp.c:pmesh_painter_init"), ("argument broadcasting", "pmesh/window.py:ResampleWindow.paint")],
 [("canvas", "the local mesh", "real argument")],
 ["ResampleWindow.paint", "Affine"])

prop("C06", "Readout is the exact transpose of painting and changes nothing",
 "Reading a mesh at a set of positions returns for each position the same weighted sum of cells that painting at that position would scatter to, so that for every mesh A, masses m and positions x the sum of A times paint(m) equals the sum of m times readout(A), for values and for derivatives, with the same window, support, per-particle scale and transform. "
 "Readout never changes the mesh or its inputs, overwrites every requested output element whatever it held, and treats each position independently of the others.",
 ["inputs", "configurations"],
 "all meshes, positions, window kinds, supports, transforms, derivative directions, output buffers and precisions",
 "The tests compare readout of constant or very simple meshes at few points; the transpose relation is a two-sided statement over all meshes and positions.",
 ["pmesh/window.py", "pmesh/_window.pyx", "pmesh/_window_generics.h", "pmesh/_window_tuned_cic.h", "pmesh/_window_tuned_tsc.h", "pmesh/_window_tuned_pcs.h", "pmesh/_window_tuned_nnb.h"],
 [("generic readout", "pmesh/_window_generics.h"), ("tuned readout", "pmesh/_window_tuned_*.h")],
 [("canvas", "the local mesh", "real argument")],
 ["ResampleWindow.readout", "ResampleWindow.paint"])

prop("C07", "Windows conserve mass, are symmetric, and fast kernels match generic",
 "On a fully periodic mesh the spline windows (nearest, linear, quadratic, cubic) deposit exactly the particle mass in total, never a negative amount, and their derivatives deposit zero in total; shifting a particle by whole cells shifts the deposit by whole cells, and swapping axes swaps the deposit, for every window. "
 "The specialised implementations agree with the generic ones of the same order for values, derivatives and readout under every transform, a window's support bounds the cells it can touch, and resizing a window changes only its support. The Fourier window of a spline is the matching power of sin(w/2)/(w/2) at the frequency stretched by its support.",
 ["inputs", "configurations"],
 "all positions, windows, derivative directions, transforms and mesh sizes (also meshes narrower than the window)",
 "Tests compare tuned and generic windows at a few positions without a scaled transform and never check shift or axis symmetry of the tabulated windows.",
 ["pmesh/_window_imp.c", "pmesh/_window_tuned_cic.h", "pmesh/_window_tuned_tsc.h", "pmesh/_window_tuned_pcs.h", "pmesh/_window_tuned_nnb.h", "pmesh/_window_lanczos.h", "pmesh/_window_acg.h", "pmesh/_window_wavelets.h", "pmesh/window.py"],
 [("kernel evaluation", "pmesh/_window_imp.c"), ("window registry", "pmesh/window.py:windows")],
 [], ["ResampleWindow.paint", "ResampleWindow.resize", "ResampleWindow.support"])

prop("C08", "White noise does not depend on how the mesh is split or stored",
 "For a given seed and mesh every mode of the generated white noise has one value: it is the same whichever sub-block of the mesh is filled, in whatever process decomposition, memory layout or precision, and whether the full or the half (compressed) spectrum is stored. "
 "On three-dimensional meshes of any size, cubic or not, the filled spectrum is Hermitian (modes at opposite wavenumbers are complex conjugates, self-conjugate modes are real), the zero mode is zero, and in unitary mode every other mode has unit modulus with the same phase as the non-unitary one, except self-conjugate modes, which are one. (One- and two-dimensional noise is only Hermitian, up to rounding.)",
 ["inputs", "configurations"],
 "all seeds, mesh sizes, sub-blocks and their strides, unitary or not, full or compressed storage, precision",
 "The tests check a few 3-d sizes and splittings at one or two seeds; the statement ranges over every sub-block decomposition and mode.",
 ["pmesh/whitenoise.py", "pmesh/_whitenoise.pyx", "pmesh/_whitenoise_imp.c", "pmesh/_whitenoise_generics.h"],
 [("SETSEED/GETSEED quadrant seed tables", "pmesh/_whitenoise_imp.c"), ("conjugate-quadrant sampling", "pmesh/_whitenoise_generics.h:_generic_fill")],
 [("seedtable", "seed of each (kx, ky) column and of its mirror images", "PMeshWhiteNoiseGenerator")],
 ["pmesh.whitenoise.generate"])

prop("C09", "White noise keeps its long waves when the resolution changes",
 "For a given seed, generating three-dimensional white noise on cubic meshes of two different even sizes gives the same value to every mode that lies strictly inside the Nyquist limit of both. "
 "The value is a function of the seed and of the mode alone: different modes (other than conjugate pairs) and different seeds (below 2^31; seed 0 stands for 1) are sampled from different streams, and repeating a call reproduces it exactly.",
 ["inputs", "configurations"],
 "all seeds and all pairs of even mesh sizes, all modes, full or compressed storage",
 "The existing scale-invariance test compares one pair of sizes at one seed.",
 ["pmesh/_whitenoise_imp.c", "pmesh/_whitenoise_generics.h", "pmesh/whitenoise.py"],
 [("Gadget seed spiral", "pmesh/_whitenoise_generics.h:_generic_fill"), ("SETSEED", "pmesh/_whitenoise_imp.c")],
 [("seedtable", "seed of each (kx, ky) column", "PMeshWhiteNoiseGenerator")],
 ["pmesh.whitenoise.generate"])

prop("C10", "Mode numbering is one-to-one, inside-out and resolution-free",
 "The scale-invariant index numbers the integer modes from zero without gaps or repeats, so that modes closer to the origin in the maximum norm always come first, the modes of a cubic mesh take exactly the first numbers, and a mode keeps its number at every mesh size that contains it; with compression only the modes with non-negative last coordinate are numbered, again without gaps. "
 "Modes outside the mesh, compressed-away modes, and modes whose number reaches a requested limit are reported as -1, and the two Nyquist signs share one number.",
 ["inputs", "configurations"],
 "all dimensions, mesh sizes, modes, array shapes, compression and limits",
 "The tests check a few explicit tables for small sizes and random samples.",
 ["pmesh/invariant.py", "pmesh/_invariant.pyx", "pmesh/_invariant_imp.c"],
 [("cap enumeration", "pmesh/_invariant_imp.c:pmesh_get_invariant_index"), ("range and Nyquist handling", "pmesh/_invariant.pyx:get_index")],
 [], ["pmesh.invariant.get_index"])

prop("C11", "Mesh objects share resources safely through any create/destroy history",
 "For any history of creating, copying to another resolution, moving to another communicator and destroying mesh objects on any ranks, with garbage collected at different times on different ranks, every creation completes on all ranks and yields an object with exactly the geometry, precision, process mesh, communicator and resampling window that were asked for (those of the mesh it was made from where they are not). "
 "Objects with identical configuration may share communication resources but never share them with a different configuration, and the resources are released when their last user is gone, so that repeated creation does not exhaust communicators.",
 ["histories", "configurations", "schedules"],
 "all interleavings of create / drop / collect over ranks and all pairs of configurations differing in one attribute",
 "One test creates objects in a loop; which rank still holds a cached entry when another has collected it depends on the collection schedule, which tests do not control.",
 ["pmesh/pm.py"],
 [("weak-value cache of plans and process meshes with collective agreement", "pmesh/pm.py:ParticleMesh.__init__"), ("reshape/respawn", "pmesh/pm.py:ParticleMesh.reshape")],
 [("_pm_cache", "weak map from configuration to shared plans", "pmesh/pm.py")],
 ["ParticleMesh(...)", "ParticleMesh.reshape", "ParticleMesh.respawn"])

prop("C12", "Local slabs tile the mesh and coordinates name the right cells",
 "On any number of ranks and any process mesh the local blocks tile the global mesh exactly once, the coordinate and index arrays of a field give for every local cell its global index, position or wavenumber (positive below the Nyquist index, negative from it on), and the lists of mesh points and of uniform-grid particles contain every global cell once with the requested shift and a unique id that is the cell's row-major number. "
 "A particle decomposed with nearest-cell smoothing reaches the rank whose block contains its cell, and its transformed position there addresses that cell.",
 ["inputs", "configurations"],
 "all mesh shapes, box sizes, dimensions 1..3, process meshes, precisions, shifts and rank counts",
 "Tests use one or two cubic meshes; uneven splits, ranks with no cells and non-cubic boxes are not covered.",
 ["pmesh/pm.py", "pmesh/domain.py", "pmesh/window.py"],
 [("_init_i_coords/_init_o_coords", "pmesh/pm.py"), ("domain assignment from the FFT partition", "pmesh/pm.py:ParticleMesh.__init__"), ("mesh_coordinates, generate_uniform_particle_grid", "pmesh/pm.py"), ("Affine", "pmesh/window.py")],
 [("partition", "block of the mesh owned by each rank", "ParticleMesh.partition"), ("affine", "map from box to local mesh units", "ParticleMesh.affine")],
 ["ParticleMesh.create_coords", "ParticleMesh.mesh_coordinates", "ParticleMesh.generate_uniform_particle_grid", "ParticleMesh.decompose"])

prop("C13", "Distributed paint, readout and resizing equal the serial result",
 "Painting particles to a distributed mesh, reading a distributed mesh at positions, and up- or down-sampling one real mesh onto another give the same global mesh, or the same value per particle in the caller's order, as a single-rank run, for every number of ranks, process mesh, initial distribution of particles, window, derivative direction and per-particle mass or scale. "
 "Painting replaces the previous contents unless asked to accumulate, and upsampling reads and downsampling deposits at the exact coincident mesh points, with the requested mean or mass normalisation.",
 ["inputs", "configurations"],
 "all particle sets and distributions, rank counts, process meshes, windows, source and target mesh sizes",
 "Field-level tests compare two communicators at one mesh size and mostly one window; wider windows crossing several blocks are not compared.",
 ["pmesh/pm.py", "pmesh/domain.py"],
 [("ParticleMesh.paint with layout", "pmesh/pm.py"), ("RealField.readout with layout", "pmesh/pm.py"), ("upsample/downsample", "pmesh/pm.py")],
 [("value", "local block of the mesh", "RealField.value")],
 ["ParticleMesh.paint", "RealField.readout", "ParticleMesh.upsample", "ParticleMesh.downsample"])

prop("C14", "Collective element access sees and keeps one Hermitian mesh",
 "Reading one stored global element (or its real or imaginary part) returns on every rank the value held at that global index whichever rank holds it, with negative indices counting from the end. "
 "Writing one element of a Fourier-space field also writes the conjugate value to its partner when that is stored, forces self-conjugate elements to be real, returns the stored value of a stored element on every rank, and changes no other element; writing an element of a real field changes exactly that element.",
 ["inputs", "histories", "configurations"],
 "all indices (positive, negative, with and without part selector), values, write sequences, compressed and full storage, rank counts and partitions",
 "The tests set and read a few hand-picked modes of one mesh.",
 ["pmesh/pm.py"],
 [("Field._ctol", "pmesh/pm.py:Field._ctol"), ("Field.csetitem, Field.cgetitem", "pmesh/pm.py")],
 [("value", "local block", "Field.value")],
 ["Field.cgetitem", "Field.csetitem"])

prop("C15", "Global views of a field are the same on every decomposition",
 "Flattening a field yields across ranks its global row-major sequence, rebuilding a field from such a sequence restores every element, and the two are inverse to each other, in or out of place, for real and both Fourier layouts. "
 "A preview returns on every rank the whole mesh, or its exact sum over the dropped axes with the kept axes in the requested order, and a coordinate transpose moves element (i,j,..) to the permuted index and permutes the box; none of these changes the source unless asked to work in place.",
 ["inputs", "configurations"],
 "all meshes, values, dimensions, axis subsets and permutations, rank counts and process meshes",
 "Tests compare a few shapes on a few ranks with random values.",
 ["pmesh/pm.py"],
 [("Field.ravel, Field.unravel", "pmesh/pm.py"), ("Field.preview", "pmesh/pm.py"), ("RealField.ctranspose", "pmesh/pm.py")],
 [("slices", "global range held locally", "Field.slices")],
 ["Field.ravel", "ParticleMesh.unravel", "Field.preview", "RealField.ctranspose"])

prop("C16", "Forward and inverse transforms are exact inverses with fixed norm",
 "The forward transform gives the mean-normalised discrete Fourier coefficients of the global mesh and the inverse gives their unnormalised sum, so that going forth and back restores the field, in every layout (transposed or not), in place or not, padded or not, on any number of ranks. "
 "Converting a field between representations keeps the function it represents, and a transform or conversion never alters its source unless it was asked to work in place.",
 ["inputs", "configurations", "histories"],
 "all meshes, values, target layouts, in-place and out-of-place targets, rank counts and process meshes, and chains of conversions",
 "Tests transform random fields on a couple of meshes and check the round trip on one path at a time.",
 ["pmesh/pm.py"],
 [("RealField.r2c", "pmesh/pm.py"), ("BaseComplexField.c2r", "pmesh/pm.py"), ("Field.cast", "pmesh/pm.py")],
 [("_base", "shared memory of in-place views", "Field._base")],
 ["RealField.r2c", "BaseComplexField.c2r", "Field.cast"])

prop("C17", "Fourier resampling copies shared modes and zeroes the rest",
 "Resampling a field onto a mesh of another size gives every mode strictly inside the Nyquist limit of both meshes its original coefficient and sets every other mode to zero, so the mean is kept and the result is a real field. "
 "The outcome is the same for real or Fourier source and target and on any number of ranks, and the source is unchanged.",
 ["inputs", "configurations"],
 "all pairs of mesh sizes per axis (up, down, mixed), all coefficient values, source and target representations, rank counts",
 "The tests resample between two or three cubic sizes.",
 ["pmesh/pm.py"],
 [("Field.resample", "pmesh/pm.py"), ("reindex", "pmesh/pm.py"), ("build_index", "pmesh/pm.py")],
 [], ["Field.resample"])

prop("C18", "Global reductions and gradients match the full uncompressed mesh",
 "Sums, means, norms and inner products of distributed fields equal those of the full mesh, counting for half-stored spectra each unstored conjugate mode once, and are identical on every rank and for every decomposition. "
 "The provided adjoint (gradient) operators of painting, readout, transforms and inner products satisfy the transpose identity with their forward operator, and the forward derivatives are linear in the perturbation and match the derivative of the forward operator.",
 ["inputs", "configurations"],
 "all field values, metrics, particle sets, masses, directions, rank counts and layouts",
 "Tests check a few gradients by finite differences at one configuration.",
 ["pmesh/pm.py"],
 [("RealField.csum/cmean/cdot/cnorm", "pmesh/pm.py"), ("BaseComplexField.cdot/cnorm/_expand_hermitian/decompress_vjp", "pmesh/pm.py"), ("paint_vjp/paint_jvp/readout_vjp/readout_jvp/r2c_vjp/c2r_vjp", "pmesh/pm.py")],
 [], ["RealField.cdot", "BaseComplexField.cdot", "BaseComplexField.cnorm", "ParticleMesh.paint_vjp", "RealField.readout_vjp", "decompress_vjp"])

prop("C19", "Fields behave as independent values unless memory is shared on request",
 "Arithmetic on fields acts element by element and yields a new field of the same kind, leaving the operands unchanged; copies, casts and applied functions yield fields whose later modification never shows in another field, while fields deliberately built on the same memory, in-place targets and the per-slab views do show it. "
 "Applying a function visits every local element exactly once with the coordinates, wavenumbers or indices of that element, whatever the memory order, and writes only to the requested output.",
 ["histories", "inputs", "configurations"],
 "all sequences of create, copy, operate, apply, in-place and shared-base steps over several fields, all layouts and dimensions",
 "Tests exercise single operations; aliasing errors need particular sequences of operations.",
 ["pmesh/pm.py"],
 [("Field.__array_ufunc__", "pmesh/pm.py"), ("Field.copy/create/cast", "pmesh/pm.py"), ("slabiter/apply", "pmesh/pm.py")],
 [("_base", "memory of a field", "Field._base")],
 ["Field operators", "Field.copy", "Field.apply", "Field.slabs"])

prop("C20", "Co-array transfers complete at sync with the right remote data",
 "Remote reads and writes queued on a co-array take effect at the next synchronisation that includes the remote image, and only then: a queued read then stores the remote data, as it was on entry to the synchronisation, into the indexed local part, a queued write stores the local data into the indexed remote part of the same shape, converted to its type, and everything else is unchanged. "
 "Operations addressed to images left out of a synchronisation stay queued for a later one, several reads or several writes between the same pair are applied in issue order, and every synchronisation entered by all images completes, whatever mix of reads and writes is queued and however large or strided the parts are.",
 ["histories", "schedules", "inputs"],
 "all sequences of queued reads, writes and partial or full synchronisations over any number of images and index expressions",
 "There are no automatic tests of co-arrays, only a demonstration that is not run.",
 ["pmesh/coarray.py"],
 [("coarray.sync", "pmesh/coarray.py"), ("coameta._solve", "pmesh/coarray.py"), ("Pull/Push", "pmesh/coarray.py")],
 [("operations", "queued transfers", "coameta.operations")],
 ["coarray.sync", "coarray.__call__", "coaproxy.__setitem__"])

prop("C21", "Legacy cloud-in-cell routines agree with each other and the modern one",
 "The older cloud-in-cell painting and readout routines (compiled and pure array versions) deposit and read exactly the multilinear window weights, fold by the period, ignore or reject out-of-mesh contributions as requested, accumulate onto existing contents, and are transposes of each other for any number of dimensions; the older windowed painter deposits exactly its linear and cubic-convolution weights in the same way. "
 "The older distributed mesh class built on them produces on any number of ranks the same global density, the same transform and the same readout as on one rank.",
 ["inputs", "configurations"],
 "all positions, weights, periods, modes, transforms, mesh shapes, rank counts",
 "The tests of these modules paint a few particles on one mesh and compare with a tolerance.",
 ["pmesh/cic.py", "pmesh/_cic.py", "pmesh/lanczos.py", "pmesh/particlemesh.py"],
 [("cic.paint, cic.readout", "pmesh/cic.py"), ("_cic.paint_some, readout_some", "pmesh/_cic.py"), ("legacy ParticleMesh", "pmesh/particlemesh.py")],
 [], ["pmesh.cic.paint", "pmesh.cic.readout", "pmesh.particlemesh.ParticleMesh"])

prop("C22", "Line integral convolution equals its definition on any ranks",
 "For any vector field, texture, kernel, length, step, window and cell size, every pixel of the line integral convolution is the texture of that pixel plus, over both directions and all steps, the step length times the kernel times the texture at the middle of the step, where each step moves along the vector read at its start (positions and vectors in units of BoxSize, periodic). "
 "The image is the same on any number of ranks and any process mesh, normalizing inside equals normalizing the vectors first with cells of no direction left alone, and vectors and texture are not modified.",
 ["inputs", "configurations"],
 "all vector fields, textures, kernels, lengths, steps, windows, cell sizes, process meshes and rank counts",
 "The only test checks that the function runs; its result is never looked at.",
 ["pmesh/lic.py"],
 [("lic: integration loop, halo of the decomposition, final painting", "pmesh/lic.py:lic")],
 [], ["pmesh.lic.lic"])

prop("C23", "Legacy transfer functions and quadratic painter act as documented",
 "In the older mesh class, for any mesh size, precision and number of ranks, the coordinate arrays are the signed wavenumbers and positions of the local modes and cells, and each transfer function multiplies the mode of every wavenumber by its documented factor (removing or dividing by the mean, constant, Laplacian, inverse Laplacian without the mean, Gaussian, derivative filters, trilinear compensation), one after the other in a chain. "
 "Its shell averages count every mode of the real field once and agree on all ranks without changing the field, and the older quadratic painter and readout deposit and read exactly the quadratic window weights, alone and distributed.",
 ["inputs", "configurations"],
 "all spectra, mesh sizes, precisions, shells, positions, periods, modes, process meshes and rank counts",
 "No collected test calls these functions.",
 ["pmesh/transfer.py", "pmesh/particlemesh.py", "pmesh/tsc.py"],
 [("TransferFunction", "pmesh/transfer.py:TransferFunction"), ("coordinates and halo", "pmesh/particlemesh.py:ParticleMesh"), ("tsc.paint, tsc.readout", "pmesh/tsc.py")],
 [], ["pmesh.particlemesh.ParticleMesh.transfer", "pmesh.tsc.paint", "pmesh.tsc.readout"])

prop("C24", "Ranks take turns one at a time; root-only calls reach every rank",
 "On any communicator, ranks using a rotator execute its body one at a time, in the order of their ranks, turn after turn, whatever the timing and also if the body raises on some ranks, and nobody waits forever. "
 "A function marked to run from the root runs once per call, on the first rank of that communicator only and with that rank's arguments, and every rank gets its result.",
 ["schedules", "configurations"],
 "all timings, communicators (split, reversed, duplicated), numbers of turns, raising bodies, arguments and results",
 "No test uses these helpers, and interleavings of ranks cannot be enumerated by tests.",
 ["pmesh/tools.py"],
 [("Rotator: counted barriers", "pmesh/tools.py:Rotator"), ("FromRoot: call and broadcast", "pmesh/tools.py:FromRoot")],
 [("barriers passed", "position in the rotation", "Rotator")], ["Rotator.__enter__/__exit__", "FromRoot"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
