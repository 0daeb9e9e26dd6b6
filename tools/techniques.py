X = 'Holds on every execution observed; executions are sampled (random, seeded), not enumerated. '
T = {
 'C01': ('model-based monitor: random measurements written in random spellings, parsed description compared with the model, respelling metamorphic monitor',
         X + 'Trusts the generator of well-formed descriptors.'),
 'C02': ('fault injection into descriptors, refusal monitor and open-file monitor (interposed open, descriptor table)',
         X + 'Covers the listed kinds of defect at random places.'),
 'C03': ('differential monitor against exact integer arithmetic, purity digests',
         X + 'Reference uses Python integers.'),
 'C04': ('offline comparison of loaded data with the pixel values written, event log of an interposed reader, load histories with files changing in between',
         X + 'Trusts PIL/numpy as writers of the files.'),
}
T.update({
 'C05': ('online comparison of every temporal point with a two-pass reference on the raw pixel values, reordering/swap/offset metamorphic monitors, purity digests',
         X + 'Reference in extended precision; tolerance 1e-9 relative plus rounding of the squared mean.'),
 'C06': ('online comparison of the spatial figures with two-pass definitions on raw stacks, transposition/offset/permutation metamorphic monitors',
         X + 'Reference in extended precision.'),
 'C07': ('fault injection into measurements (missing points, sizes, files, spatial layout) at random places, refusal monitor, complete measurement accepted before every injection',
         X + 'Covers the listed kinds of defect.'),
})
T.update({
 'C08': ('online comparison of saturation index and range ends with direct scans on constructed curves (peak, tail, dips, earlier peaks, forced index, exact ties)',
         X + 'Curves are constructed so that the right answer is known; values within 1e-9 of a limit without being on it are skipped.'),
 'C09': ('online comparison with closed-form least squares in extended precision over independently found ranges, rescaling and outlier metamorphic monitors',
         X + 'Tolerance 1e-6 relative (iterative fits).'),
 'C10': ('online recomputation of every figure from its definition, pixel area changed during the life of the object',
         X + 'Tolerance 1e-12 between figures, 1e-5 against independent fits.'),
 'C11': ('online comparison with a weighted least-squares reference, local optimality probe, affine/rescaling/outlier metamorphic monitors',
         X + 'Reference in extended precision.'),
 'C12': ('online comparison with closed-form slopes and definedness rules',
         X + 'Slopes within rounding of zero decide nothing about the sign.'),
})
T.update({
 'C13': ('online comparison of all parts and figures with definitions on raw stacks, conservation monitor (parts add up), transposition and pure-structure metamorphic monitors',
         X + 'Parts within rounding of zero decide nothing about NaN.'),
 'C14': ('online comparison of every bin with a per-pixel reference algorithm, conservation of pixels, direct counts for the accumulated form',
         X + 'The scale of the model curve may lie between W*(Q-1)/Q and W.'),
 'C15': ('online comparison of every output pixel with exact integer neighbourhood sums, null/linearity metamorphic monitors, refusal monitor, purity digests',
         X + 'Integer grey values compared exactly.'),
 'C16': ('online comparison with explicit Fourier sums, Parseval conservation monitor, sine/scaling/transposition metamorphic monitors, purity digests',
         X + 'Tolerance 1e-7 relative plus rounding of the mean.'),
})
T.update({
 'C17': ('history monitor: random sequences of reads (values, dictionaries, prints, XML, plots, reports) on several live objects against values from fresh objects, purity digests of the data, completeness against the documented list',
         X + 'The documented list is a table in mon/documented.json.'),
 'C18': ('round-trip monitor with bit-exact comparison on real results and on dictionaries of arbitrary numbers and texts, foreign spellings, corrupted text',
         X + 'Names of letters, digits and underscores that differ in more than case.'),
 'C19': ('online comparison of every verdict with exact decimal rounding, symmetry and reflexivity monitors',
         X + 'Values within 1e-6 units of a rounding tie decide nothing.'),
})
T.update({
 'C20': ('online range/type/shape monitor on every image grabbed from random cameras, independent model for darkness and saturation, same-seed monotonicity monitor',
         X + 'Expected images compared through pixel means of equal seeds or wide statistical bounds.'),
 'C21': ('statistical online monitor of per-pixel mean and variance against the configured camera model, exact photon-formula reference, per-grab override monitor',
         X + 'Statistical bounds of more than 8 standard errors with fixed seeds.'),
 'C26': ('end-to-end statistical monitor: every recovered parameter against the configured one within 8 standard errors; differential monitor of the one-call interface',
         X + 'Tolerances from error propagation; saturation bounded from one side behind a full well.'),
 'C27': ('every line of every axes read back from the figures and recognised against values of separate result objects, purity digests',
         X + 'Reads matplotlib artists, not pixels.'),
 'C28': ('offline checker of the rendered reports (structure, figures, texts, files), recorded figures of every saved plot judged as in C27, interleaved histories of several reports, purity digests',
         X + 'Reads the TeX text; TeX itself is not installed.'),
 'C29': ('online comparison of spot patterns, tilings and Bayer filters with per-pixel references, refusal monitor, purity digests',
         X + 'Covers the helpers named in the property.'),
})
T.update({
 'C22': ('online comparison of conversions with the physical formula in extended precision, round-trip and proportionality monitors, target levels against the light they produce',
         X + 'Tolerance 1e-9 relative.'),
 'C23': ('history monitor: random interleavings of grabs, conversions and setting changes on several live cameras replayed on twins, bit-exact image comparison, fingerprints of settings and maps around every call',
         X + 'Noise of different seeds compared as whole images.'),
 'C24': ('online comparison of the chosen setting with every published one, direct check of the published lists',
         X + 'Ties between settings accept both neighbours.'),
 'C25': ('interposed event log of every capture checked offline against descriptor and files (exactly once, in order, lossless), differential monitor of the loaded data against the reduction of the logged pixels',
         X + 'Log taken at Camera.grab of the real generator.'),
 'C20': ('online type, shape and range monitor on every grabbed image, mean level against an independent camera model, monotonicity monitor',
         X + 'Mean levels compared within computed statistical bounds.'),
})
T.update({
 'C30': ('fault injection (files cut at every kind of place, failing reads, opens and writes at every point, file-size and descriptor limits of the kernel) with outcome, open-file and memory monitors, repetition after the fault',
         X + 'Short writes of formats other than PNG are passed over by the image library itself and not injected.'),
 'C31': ('schedule stress: threads switched at random lines of the package by a tracer that records the order, outcomes compared bit by bit with those of the jobs alone',
         X + 'The schedules depend on the machine; a replay repeats the jobs, not the exact order.'),
 'C32': ('differential monitor: masked images of one colour against images of its pixels alone (statistics, figures, XML, plots), metamorphic monitor on the other colours, simulated cameras with a filter pattern against their configuration',
         X + 'Rests on C03 to C16 for images without mask.'),
 'C33': ('differential monitor over processes: the same jobs in a plain process and in processes with other environment, interpreter flags, global settings and order, digests of outcomes, files and printed text compared',
         X + 'Environments are drawn from a list (see DESIGN.md); text encodings other than UTF-8 and ASCII are stood in for by an interposed open.'),
})
