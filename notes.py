CHECKS = {
 'P06': ('generated sessions of selections, splits and joins on shared halos, checked step by step against a reference model of sets of halo identities',
         'exploration', 'seeded search over operation histories; samples, does not enumerate'),
 'P07': ('generated sessions of ray shifts interleaved with selections, joins, extensions and exports, against a reference model of each halo\'s offset',
         'exploration', 'seeded search over operation histories; samples, does not enumerate'),
 'P04': ('generated read orders on real halos of every class, with batch warming, copies, pickles and selections in between, every lazy draw addressed by halo and site; each value against the same property read first on an untouched copy of the process',
         'exploration', 'seeded search over read orders; samples, does not enumerate'),
 'P08': ('generated sessions of reads, exports, rescalings, shifts and caller-side overwrites, each export checked against its halos, and the final state against a twin session that never read anything before',
         'exploration', 'seeded search over operation histories; the twin comparison uses a constant quantile for lazy draws'),
 'P01': ('seeded calls from a generated catalogue after generated histories of other calls (interrupted at chosen lines, under a jumping clock), compared bit for bit with an untouched copy of the process and with a fresh process',
         'exploration', 'seeded search over call histories and crash points; samples, does not enumerate'),
 'P02': ('generated programs whose calls share argument objects and are interrupted at chosen lines; deep snapshots of every argument object around every call, results against an untouched process',
         'exploration', 'seeded search over call sequences; samples, does not enumerate'),
 'P03': ('seeded scheduler interleaving independent client sessions with different cosmologies and interrupted bystander calls; each step against the same session run alone',
         'exploration', 'seeded search over interleavings at API-call granularity'),
 'P13': ('crash points: a call is stopped at the k-th executed library line (error, Ctrl-C, out of memory) or by a failing callback, several times; existing objects observed before and after, then the call is retried',
         'exploration', 'seeded search over crash points; existing halos draw lazily from a constant quantile'),
 'P09': ('whole renders with every random draw under the simulator: scripted quantiles and Poisson counts (zero, one, huge, edge quantiles) or the real stream, each realization checked against an independent model of planes, aperture, mass range and position distributions',
         'exploration', 'seeded search over configurations and draw outcomes; samples, does not enumerate'),
 'P10': ('renders and operation histories before export, with scripted Poisson counts and mass quantiles so that the mass drawn per plane equals its expectation; every sheet compared with the mass rendered in its plane',
         'exploration', 'seeded search; theoretical sheets are compared with stratified renders to a stated tolerance'),
 'P05': ('generated histories of reads, exports, selections, copies, pickles, shifts and extensions on real halos, with reads stopped at chosen lines; every value is booked when first drawn and compared at every later read, together with the random stream position, and the final properties of each halo against an independent model of one object',
         'exploration', 'seeded search over read histories; samples, does not enumerate'),
 'P11': ('generated chains of SIDM, core-collapse, cored-halo and SIS transforms with reads, joins, shifts and stopped calls in between and chosen probability draws; each result against an independent model of the selection rule and of what a converted halo keeps',
         'exploration', 'seeded search over transform histories; samples, does not enumerate'),
 'P16': ('generated query histories on cosmology, geometry and lens objects, stopped at chosen lines and with other cosmologies constructed in between; each answer against independent integrals and a fresh instance',
         'exploration', 'seeded search over query histories; reference integrals have stated tolerances'),
 'P18': ('generated draw histories on mass functions with real, extreme and scripted random streams and stopped draws; counts, ranges, thinning and expected sums against a quantile-level reference model and independent quadrature',
         'exploration', 'seeded search; distributional statements are checked on the quantiles, not by sampling'),
 'P15': ('generated query histories on one concentration model instance, interrupted at chosen lines while its table is built, with scripted scatter draws; each answer against a fresh instance and the direct relation',
         'exploration', 'seeded search over query histories; 1e-3 table accuracy is the documented tolerance'),
 'P12': ('generated chains of object injections after other operations, with scripted Poisson counts and draw quantiles and calls stopped at chosen lines; each result against an independent account of expected numbers, mass limits, planes, apertures and inherited state',
         'exploration', 'seeded search over operation histories and draw outcomes; samples, does not enumerate'),
 'P17': ('halos whose every random quantile is owned by the simulator (ordinary ones and the ends of each distribution), read one by one, in batches, stopped half way, among others and alone; each draw against the distribution its model documents, each exported profile weighed against the bound mass drawn',
         'exploration', 'seeded search over quantiles, infall and truncation models, masses, hosts and read orders'),
 'P19': ('structure rendered around halos of realizations with a generated history, with scripted counts and draws and calls stopped at chosen lines; expected numbers, planes, positions and rescaled amplitudes against an independent account of the projected mass on every plane',
         'exploration', 'seeded search; positions against the convergence map by moments of 500 scripted-count draws'),
 'P14': ('generated sessions of reads, filters and realizations on generated Galacticus files over a simulated disk: failing device reads, truncation, files replaced between reads, reads stopped at chosen lines, closed handles; every answer against the table the simulator wrote, and the HDF5 objects left open',
         'exploration', 'seeded search; corruption that HDF5 itself cannot notice (changed bytes) is out of reach'),
 'P22': ('presets and renders with every Poisson mean observed and every count and quantile decided by the simulator, after other calls, stopped calls and with shared argument dictionaries; means and the exact list of halos against an independent account of what the arguments promise',
         'exploration', 'seeded search over arguments and draws; means to 0.15 per cent plus the interpolation error of low-redshift distances'),
}
NA = {
 'P20': 'closed-form identities over a continuum of inputs: no schedule, clock, history, randomness or fault for a simulation to control',
 'P21': 'pure formula fits: no schedule, clock, history, randomness or fault for a simulation to control',
}
