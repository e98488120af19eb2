"""known_findings.json: defects found and repaired in /repo (they suppress nothing) and defects recorded but not repaired"""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
FIXED = '''
P06 431cbbf Realization.__eq__ compared the tags of only one side
P07 0feff83 aligning with the source moved the halos of the original realization and dropped the halos in front of min_shift_redshift
P04 e8c4671 reading a MassiveGalaxy's _alphaRs replaced the method with a number
P07 d59aed8 realizations derived from a shifted one could be shifted again
P02 74a91a6 preset models and model constructors wrote into the keyword dictionaries of the caller (and into default arguments)
P09 c60ccc8 field halos were rendered with the mass definition of the subhalos
P04 b6bfb6b halos shared one profile dictionary; a core-collapsed copy lost the infall redshift
P04 644ba43 bound_mass of a TNFW subhalo changed when the lensing keywords had been read before
P08 c4611df exports after rescale_normalization kept the old amplitude of quantities cached before
P04 1a51291 mass_3d used the untruncated normalization when params_physical had not been read before
P05 3f71667 truncation radii of some TruncationGalacticus models were drawn for another bound mass than the one reported
P04 b435b2b documented names and calls raised when used (np.trapz, TNFWCHaloEvolving, Hybrid.profile_args)
P05 13f1a89 PJaffe and generalized NFW halos drew their concentration at every read; PJaffe central density was infinite
P05 bb31be8 SIS and MassiveGalaxy drew another infall redshift than the halo they replace
P08 1737fd3 lenstronomy_params_split of a core-collapsed halo with a black hole replaced the exported keywords
P11 f87a936 a selection with probability zero selected a halo when the uniform draw was exactly zero
P04 08ccad4 setting the infall redshift of an SIS halo had no effect
P12 ab9c530 ULDM fluctuations were attached to the wrong image when another aperture had none
P11 987b263 add_cored_halos dropped the halos outside halo_index_list
P12 14a8bb5 black holes in sub-resolution halos ignored the black hole mass limits
P19 3bc9dc5 correlated structure lost positions or did not rescale halos when the last plane drew nothing
P19 7ae534f the projected mass of correlated structure was taken from the wrong number of pixels
P12 c59cc23 clustered primordial black holes ignored the requested mass function and used one radius for all images
P08 043137b lensing_quantities handed out the dictionaries cached inside the halos
P14 ffbb3c8 Galacticus files with one tree could not be read
P14 c6d94c3 the node filters ignored the utility class they are given; nodedata_select_subhalo raised
P03 18bfb92 colossus functions were evaluated in the cosmology another session had made current
P08 8b54930 exported truncation radii of strongly stripped halos were rounded to zero
P12 8528d4d adding black holes or correlated structure to a realization without halos raised
P01 5e41ddc preset model name DMEmulator raised
P16 83ecfb6 halo_age raised for arrays of redshifts
P13 7bc2ff7 an interrupted or earlier query changed later truncation radii
P13 cb75e7a an interruption inside a distance lookup was taken for a redshift out of range
P17 15ee2fa Keeley24 bound masses larger than the infall mass
P05 a0a68d7 Keeley24 truncation radii did not follow from the bound mass of the halo
P04 73d6449 batch evaluation of the mass loss differed from the per-halo one outside the host concentration range
P03 01f0f08 concentration models made inside other objects used the default cosmology
P16 cb506b6 a lens plane coincided with the main deflector or the source through rounding
P18 ecf30a6 turnover mass functions over an empty mass range drew halos
P18 024f41d Sheth-Tormen mass functions over an empty mass range raised
P15 67aa683 BinnedHaloMass raised for halos at the edges of its mass range
P16 4011027 the rendering volume ended before the source redshift
P16 da0c749 comoving distances of lists of redshifts beyond the interpolated range were wrong
P18 3902387 power laws whose exponent is almost zero lost all digits
P18 ce4c9cc expected numbers of turnover mass functions over wide mass ranges were off by up to 10 per cent
P15 bf8d973 concentrations of masses given as numpy integers or 32-bit floats raised or lost precision
P11 6b46cb1 core-collapsed halos drew a new concentration
P12 ebba90a the expected number of globular clusters did not follow from their surface mass density
P12 6d6f40f globular clusters around a centre given as a numpy number raised
P12 0217d3c sub-resolution black holes ignored the centre of the rendering volume
P19 693a290 structure around halos raised or drew nonsense where the convergence is negative
P17 43ac7fb infall redshifts outside their range for extreme draws and masses
P17 93a12e9 truncation radius zero for subhalos close to the host centre
P17 e57c479 bound mass zero for extreme draws
P13 682c801 an interrupted rescaling left a halo half rescaled
P14 146d8cc JointLOSWithEmulator rendered the line of sight in a cone of 6 arcsec whatever cone was asked for
P22 6a9e644 delta_power_law_index did not change the slope of the subhalo mass function of CDM and models built on it
P15 d6c360f batch_nfw_concentration drew scatter for the binned model although force_no_scatter asked for the median
'''
FINDINGS = []
if __name__ == '__main__':
    h = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout
    out = []
    for l in FIXED.strip().splitlines():
        p, c, w = l.split(' ', 2)
        out.append('fixed: property=%s %s %s' % (p, c, w))
    json.dump(dict(findings=FINDINGS, fixed=out), open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
