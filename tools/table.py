prop('A01', 'Aperture membership equals the geometric shape',
     'A particle survives an aperture check exactly when its transverse position lies strictly inside the shape the aperture describes (circle, rectangle, ellipse, rectangle-and-ellipse, octagon). This holds for every size of the aperture and every position, also in the corners and near the axes where fast paths are taken.',
     'inputs', 'all positive aperture dimensions and all real transverse positions',
     'Tests sample a grid of points of a few apertures; a wrong fast path or corner test is wrong only in a thin region of position and size.',
     'Aperture.cpp Aperture.h',
     [('membership tests of the five shapes', 'Merlin++/Aperture.cpp: CircularAperture, RectangularAperture, EllipticalAperture, RectEllipseAperture, OctagonalAperture::CheckWithinApertureBoundaries')],
     'Every obligation is discharged for all real sizes and positions; doubles are treated as reals, the octagon corner angles as lying in (0.05,1.5).')
prop('B01', 'Bunch centroid and moments are the mean and covariance',
     'The centroid and the second moments reported for a bunch equal the arithmetic mean and the covariance of the coordinates of its particles, for a bunch of any size.',
     'inputs', 'all bunches of any number of particles with any coordinates',
     'The moments are computed by running updates over the particle list; a wrong weight in the recurrence shows up only for particular sizes and distributions.',
     'ParticleBunch.cpp ParticleBunch.h PSmoments.h TCovMtrx.h',
     [('running mean and covariance', 'Merlin++/ParticleBunch.cpp: APSV1, PSVVAR1, GetCentroid, GetMoments')],
     'The particle loop is unbounded: its carried state is put in closed form and the closed form is proved inductive. Exact real arithmetic.')
prop('G01', 'Frame transformations are rigid motions forming a group',
     'Rotations and transformations of reference frames preserve distances, compose like the maps they stand for and are undone by their inverse, whatever mixture of axis rotations and general rotations is involved. Conjugation by a half turn about an axis gives the transformation seen in the turned frame.',
     'inputs', 'all angles, translations and points, every combination of rotation representations',
     'The rotation classes dispatch on the pair of representations with dedicated formulas for each; tests exercise few pairs at few angles.',
     'Rot3Drep.cpp AxisRotations.cpp GeneralRotation.cpp IdentityRotation.cpp Transform3D.cpp Transform3D.h Transform2D.h Rotation3D.h',
     [('double dispatch of products', 'Merlin++/AxisRotations.cpp, Merlin++/GeneralRotation.cpp: dot, dotBy'), ('composition and inverse of transformations', 'Merlin++/Transform3D.cpp'), ('plane transformations', 'Merlin++/Transform2D.h')],
     'All pairs of representations and triples over distinct axes; sin and cos are known by s^2+c^2=1 and the addition theorems. Exact real arithmetic.')
prop('L01', 'Applying a linear or second-order map is the tensor product',
     'A linear or second-order map applied to a phase-space vector yields the matrix and tensor product with that vector, applied to first and second moments it yields the mean and covariance of the mapped distribution, and applied to a bunch it acts once on every particle. Terms never set contribute nothing, a copied map is independent of its source, and particle identities are kept.',
     'inputs', 'all map coefficients, vectors, moments and bunch sizes',
     'Maps are stored as sparse term lists and moments as packed triangles; an index slip touches only one of hundreds of combinations of terms.',
     'RMap.h RMap.cpp RTMap.h RTMap.cpp TCovMtrx.h PSmoments.h LinearParticleMap.cpp MatrixMaps.cpp',
     [('sparse application to vectors and moments', 'Merlin++/RMap.h: RMap::Apply, map2nd, ApplyR2Map, ApplySimpleDrift'), ('second order terms', 'Merlin++/RTMap.cpp: RTMap::Apply'), ('matrix maps over bunches', 'Merlin++/MatrixMaps.cpp, Merlin++/LinearParticleMap.cpp')],
     'All coefficients symbolic; bunch loops unbounded. The single-argument vector application declared by the sparse map class is defined nowhere in the library, so the accumulating form is the one under contract.')
prop('M01', 'Linear optics maps are symplectic and concatenate',
     'The linear maps of drifts, bends, quadrupoles, solenoids, rolls and pole faces preserve the symplectic form, leave the longitudinal coordinates alone where the element does, and splitting an element into two pieces gives the same map as the whole. The cavity maps damp phase space by exactly the ratio of the energies, and the full and plane-by-plane versions of a map agree.',
     'inputs', 'all lengths, strengths, angles and energies for which the element is defined',
     'Each sign regime of the strength has its own formula; tests compare single elements with stored numbers at single strengths.',
     'TransportRMaps.cpp TransportRMap.h',
     [('map factories', 'Merlin++/TransportRMaps.cpp: Drift, Quadrupole, SectorBend, Srot, PoleFaceRot, Solenoid, TWRFCavity, SWRFCavity')],
     'All parameters symbolic, all sign regimes split; sin/cos/sinh/cosh are known by their addition theorems. Solenoid strengths below the zero tolerance of the code are excluded except exactly zero. Standing-wave cells 1..3.')
prop('A02', 'Interpolated apertures vary linearly between stations',
     'An aperture given at stations along an element keeps a particle exactly when it lies inside the shape whose every dimension is the linear interpolation between the two stations around its longitudinal position, for rectangle-and-ellipse, circle, ellipse and octagon. Positions before the element count as its start.',
     'inputs', 'all station positions, dimensions, longitudinal and transverse positions',
     'A dimension that is dropped or a fast path that ignores the tighter end shows only for tapers in one particular direction.',
     'InterpolatedApertures.cpp InterpolatedApertures.h',
     [('interval search and interpolation', 'Merlin++/InterpolatedApertures.cpp: Interpolated{RectEllipse,Circular,Elliptical,Octagonal}Aperture::CheckWithinApertureBoundaries')],
     'Three stations with any spacing (the interval search looks at one pair of neighbours); positive dimensions, longitudinal position not beyond the last station. Points exactly on the boundary are left open for the rectangle-and-ellipse and the ellipse.')
prop('A03', 'Collimator jaws follow gap, offset and tilt',
     'A collimator lets a particle pass exactly when its position, taken relative to the jaw centre and turned by the tilt, lies strictly between the jaws. Gap and offset run linearly from the entrance to the exit values, and the gaps reported are the gaps in force, whether given at construction or set later. Unaligned and one-sided jaws use the entrance values only.',
     'inputs', 'all gaps, offsets, tilts, lengths and positions within the collimator',
     'Whether a halo particle hits a jaw depends on the combination of taper, offset and tilt; single sampled positions do not settle it.',
     'CollimatorAperture.cpp CollimatorAperture.h',
     [('jaw position', 'Merlin++/CollimatorAperture.cpp: CollimatorAperture, UnalignedCollimatorAperture, OneSidedUnalignedCollimatorAperture::CheckWithinApertureBoundaries, SetEntranceWidth, SetEntranceHeight')],
     'The longitudinal position lies between entrance and exit; exit gaps are given explicitly. Exact real arithmetic.')
prop('I01', 'Symplectic element maps are exact flows and canonical',
     'Each element map of the symplectic integrators moves a particle along the exact trajectory of the element (drift, bend, quadrupole, combined-function bend, exact sector bend), is the identity at zero length and preserves phase-space volume and the symplectic form. Pole faces and cavities are canonical kicks; accelerating structures damp trace space by the energy ratio and leave the reference particle alone.',
     'inputs', 'all strengths, curvatures, lengths and all phase-space points that move forwards',
     'Symplecticity is a property of the derivative at every point; tracking a handful of particles for a few turns does not decide it.',
     'SymplecticIntegrators.cpp',
     [('element maps', 'Merlin++/SymplecticIntegrators.cpp: DriftMap, SectorBendMap, QuadrupoleMap, CombinedFunctionSectorBendMap, SectorBendMapEF, PoleFaceRotation, RFStructureMap, RSRFStructureMap, SimpleRFStructureMap')],
     'The derivative is taken symbolically of the executed code with respect to the coordinates and the length; the equation of motion at every length together with the identity at zero length determines the flow. Exact real arithmetic; fields that are exactly zero are handled by other maps.')
prop('M02', 'Transport matrices are symplectic, concatenate and act on moments',
     'The matrices of drifts, quadrupoles, bends, solenoids, rolls and pole faces are symplectic and two slices give the matrix of the whole; the chromatic matrices are the momentum derivative of the linear ones; cavity matrices damp by the energy ratio. Applied to vectors and to first and second moments, at the matched or any other momentum, they yield the mean and covariance of the mapped particles and leave the other coordinates alone.',
     'inputs', 'all lengths, strengths, curvatures, angles, energies and matrices of 2, 4 and 6 dimensions',
     'Limits such as zero strength or exactly cancelling focusing have formulas of their own and are rarely sampled; the matrices are used through several dimensions.',
     'TransportMatrix.cpp TransportMatrix.h MatrixMaps.cpp MatrixMaps.h',
     [('matrix factories', 'Merlin++/TransportMatrix.cpp: Drift, QuadrupoleR, QuadrupoleT, SectorBend, SectorBendT, Srot, PoleFaceRot, Solenoid, TWRFCavity, SWRFCavity'), ('application', 'Merlin++/MatrixMaps.cpp: RMtrx::Apply, RdpMtrx::Apply, TransformMoments, RescaleMoments')],
     'All parameters symbolic; solenoid strengths and slopes below the zero tolerance of the code are excluded except exactly zero; dispersion part of the chromatic bend matrix is not under contract.')
prop('I02', 'Thin-lens tracking applies the field of each element to every particle',
     'A step of the thin-lens integrators transports every particle by the drift, the matrix of the main field and the centred kick of the remaining multipoles, scaled with the particle momentum and the sign of the charge, for drifts, normal and skew multipoles, bends with pole faces, solenoids, cavities and monitors. Linacs raise the reference energy by the accelerating voltage. Each step acts once on every particle of the bunch and keeps its identity.',
     'inputs', 'all field strengths, lengths, tilts, phases, voltages, momenta, charges and bunches of any size',
     'The branches depend on which field components are present, whether the element matches the beam and how the length is split; tests use a handful of combinations.',
     'StdIntegrators.cpp StdIntegrators.h LCAVintegrator.cpp TransRFIntegrator.cpp MultipoleField.cpp',
     [('thin lens integrators', 'Merlin++/StdIntegrators.cpp: TrackStep of DriftCI, SectorBendCI, RectMultipoleCI, SWRFStructureCI'), ('cavities', 'Merlin++/LCAVintegrator.cpp, Merlin++/TransRFIntegrator.cpp'), ('solenoid, marker, monitor', 'Merlin++/StdIntegrators.cpp')],
     'Particle loops unbounded, fields of up to four multipole components. The step is compared with the composition of the contracts of the matrices (M02) and the field kick. Exact real arithmetic.')
prop('I03', 'Symplectic tracking composes exact maps and kicks in the right frame',
     'A step of the symplectic integrators maps every particle by the exact element maps with half maps on both sides of the centred multipole kick, in the frame of the element turned by its tilt, with the magnetic strength scaled by the sign of the charge and the reference momentum of the beam. Pole faces act at the two ends with their own angles, also when only one is given; cavities change the reference momentum by their energy gain.',
     'inputs', 'all field strengths, lengths, tilts, phases, voltages, momenta, charges and bunches of any size',
     'Which map is used depends on the field components present and the ratio of momentum to strength; single tracked particles do not settle the choice of branch, frame or sign.',
     'SymplecticIntegrators.cpp StdIntegrators.h SectorBend.h',
     [('steps of the symplectic set', 'Merlin++/SymplecticIntegrators.cpp: TrackStep, TrackEntrance, TrackExit of the component integrators')],
     'Particle loops unbounded, fields of up to four multipole components. The element maps are the same functions that I01 puts under contract. Exact real arithmetic.')
prop('I04', 'Second-order transport maps solve the equation of motion',
     'The second-order maps of drift, quadrupole, sextupole, sector bend and combined-function bend obey the equation of motion of the element to second order in all six coordinates and are the identity at zero length, for every sign of the gradient. The pole face map is the field of a tilted edge with gradient and curvature, with entrance and exit mirrored.',
     'inputs', 'all lengths, curvatures, gradients, edge angles and all first and second order coefficients',
     'A second-order coefficient is one of 162 numbers per map; a slip in one of them changes tracked positions only at second order.',
     'BasicTransportMaps.cpp BasicTransportMaps.h',
     [('second order maps', 'Merlin++/BasicTransportMaps.cpp: DriftTM, QuadrupoleTM, SextupoleTM, SectorBendTM, GenSectorBendTM, PoleFaceTM')],
     'The derivative of every coefficient with respect to the length is taken symbolically of the executed code. Chromatic terms in the limit of high energy; combined bend away from the removable singularity h^2+5K=0.')
prop('I05', 'Transport tracking applies the second-order map of the element field',
     'A step of the transport integrators maps every particle by the second-order map of the element, built with the field strength, length and reference momentum of the beam with the sign of its charge, in the frame turned by the tilt of a skew element; further multipoles act as a centred kick between two half maps. Pole faces act at the two ends with their own angles, gradients and curvatures.',
     'inputs', 'all field strengths, lengths, momenta, charges, pole faces and bunches of any size',
     'Which map is used, with which arguments and in which frame depends on the field components present; the few tracked lattices of the tests do not reach most branches.',
     'TransportIntegrators.cpp SectorBend.h MultipoleField.cpp',
     [('steps of the transport set', 'Merlin++/TransportIntegrators.cpp: TrackStep, TrackEntrance, TrackExit')],
     'Particle loops unbounded. The map factories of BasicTransportMaps.cpp (I04) and the application of a map (L01) enter by name only: both sides of the comparison call the same uninterpreted function.')
prop('F01', 'Magnet and cavity fields follow their expansion',
     'The field of a multipole is the complex polynomial of its coefficients, satisfies the field equations, and turns and reflects correctly; reading a component changes nothing, and components set as field or as gradient at a radius read back alike. The force on a charge is that of the field, also for solenoids, accelerating and transverse cavities at their phase. Magnets carry the field they are given, copies own theirs, and a bend stays matched to its momentum.',
     'inputs', 'all coefficients, positions, velocities, phases and orders up to four',
     'Coefficients scale with factorials and powers of a radius; a wrong factor at one order or a term created by reading shows only for that order or that sequence of calls.',
     'MultipoleField.cpp MultipoleField.h BzField.cpp TWRFfield.cpp SWRFfield.cpp TransRFfield.cpp RFAcceleratingField.h RectMultipole.cpp StandardMultipoles.cpp SectorBend.cpp EMField.cpp',
     [('multipole expansion', 'Merlin++/MultipoleField.cpp: GetField2D, GetBFieldAt, SetComponent, GetComponent, RotateX180, RotateY180, RotateZ180, LowestSetMultipole'), ('Lorentz force', 'Merlin++/EMField.cpp, BzField.cpp, TWRFfield.cpp, SWRFfield.cpp, TransRFfield.cpp: GetForceAt'), ('magnets', 'Merlin++/RectMultipole.cpp, StandardMultipoles.cpp, SectorBend.cpp')],
     'Coefficients symbolic, expansions of up to four terms. Exact real arithmetic.')
prop('T01', 'Tracking steps through every component exactly once and in order',
     'Tracking visits the frames of a line or ring in order; each component is entered once, stepped through in steps that add up to its length and left once, with the entrance and exit fields applied at its ends only, whatever the step sizes. In every step all active processes act in the order of their priority with the same step, the smallest any of them allows. Frame misalignments and geometry patches are applied around each component, also when stepping frame by frame.',
     'inputs histories', 'all lengths, step sizes, priorities, activity and output flags, misalignments and patches',
     'Entry and exit depend on where the accumulated length stands relative to the component ends; tests track whole components with a single process.',
     'ComponentIntegrator.h ComponentTracker.cpp ComponentTracker.h ProcessStepManager.cpp TrackingSimulation.cpp AcceleratorComponent.cpp',
     [('step and state bookkeeping', 'Merlin++/ComponentIntegrator.h: Track; Merlin++/ComponentTracker.cpp: TrackStep, SelectIntegrator, Register'), ('process scheduling', 'Merlin++/ProcessStepManager.cpp: Track, AddProcess, RemoveProcess'), ('frame loop', 'Merlin++/TrackingSimulation.cpp: PerformTracking, StepComponent')],
     'One step of one component is proved for any position and length, which is inductive for any number of steps. Bounded: at most three steps and two processes in the scheduler, two frames in the line, four processes in the ordering. Lengths are either zero or larger than the tolerance of the code.')
prop('G02', 'Elements and nested frames have a consistent geometry',
     'The reference orbit of a straight or arc element follows its tangent and curvature, transformations between places along it compose, invert and refuse places outside. A sequence of elements has the composed geometry with its origin at either end or in the middle. Misalignments of frames, girders, movers and supports appear with the right transformation at the entrance and exit planes and in physical positions, also nested, and copies of frames are complete and independent.',
     'inputs', 'all lengths, curvatures, places along elements and sequences, misalignments and support movements',
     'Which of two nested frames shares a plane, and in which frame a displacement acts, matters only for particular nestings, origins and combined displacements.',
     'LatticeFrame.cpp SequenceFrame.cpp ComponentFrame.cpp SupportStructure.cpp MagnetMover.cpp Transformable.cpp RectangularGeometry.cpp ArcGeometry.cpp PatchFrame.h',
     [('element geometry', 'Merlin++/RectangularGeometry.cpp, Merlin++/ArcGeometry.cpp: GetGeometryTransform'), ('sequence geometry', 'Merlin++/SequenceFrame.cpp: ConsolidateConstruction, SequenceGeometry'), ('plane transforms and positions', 'Merlin++/LatticeFrame.cpp: GetBoundaryPlaneTransform, GetPhysicalTransform, GetFrameTransform, GetPosition'), ('supports and movers', 'Merlin++/SupportStructure.cpp, Merlin++/MagnetMover.cpp')],
     'All lengths, curvatures and misalignments symbolic. Bounded: sequences of three frames (straight, bend, straight) and nests of two levels. Distances from plane to plane above the tolerance of the code, misalignments above it or absent; arcs without roll; exact real arithmetic.')
prop('B02', 'Changing the reference or frame of a bunch keeps the particles',
     'Changing the reference momentum or time of a bunch, to given values or to the mean, leaves the momentum and arrival time of every particle as they are. In another frame every particle continues on the same straight line. Moving the centroid onto the first particle moves the others as a whole. Single and projected moments are mean and covariance. Total charge follows the number of macro particles, and adding, removing and sorting keep whole particles with their identity.',
     'inputs', 'all bunches of any size with any coordinates, all reference changes and frame transformations',
     'Wrong offsets of this kind are hidden as long as the mean deviation is small and the bunch starts centred, as it does in the tests.',
     'ParticleBunch.cpp ParticleBunch.h ReferenceParticle.h PSvectorTransform3D.cpp PSvector.h PSmoments.h',
     [('reference changes', 'Merlin++/ParticleBunch.cpp: AdjustRefMomentum, AdjustRefMomentumToMean, AdjustRefTimeToMean, SetCentroid'), ('frames', 'Merlin++/PSvectorTransform3D.cpp: Apply; ParticleBunch::ApplyTransformation'), ('moments and container', 'Merlin++/ParticleBunch.cpp: GetMoments, GetProjectedMoments, GetProjectedCentroid, SortByCT; Merlin++/ParticleBunch.h')],
     'Particle loops unbounded. Container operations and sorting with up to four particles. Reading and writing of bunch files is not under contract. Exact real arithmetic.')
prop('B03', 'Generated bunches match the beam they are generated from',
     'The transformation from normal coordinates made from a beam description is canonical with and without coupling. The moments of a beam are those of its Twiss parameters, emittances, dispersion, length and momentum spread, and an uncoupled beam is recovered from its moments. A generated bunch starts with the centroid particle and holds the requested number of accepted particles, each the matched image of one draw of the distribution; the distributions draw from the ranges they describe.',
     'inputs', 'all Twiss parameters, emittances, dispersions, couplings, centroids and drawn values',
     'The tests look at statistics of large bunches without slope, dispersion or longitudinal spread, within some percent.',
     'ParticleBunch.cpp NormalTransform.cpp BeamData.h ParticleDistributionGenerator.cpp HaloParticleDistributionGenerator.cpp HollowElensParticleDistributionGenerator.cpp BunchFilter.cpp',
     [('normal form and moments', 'Merlin++/NormalTransform.cpp: NormalTransform, BeamDataToSigmaMtrx, SigmaMatrixToBeamData'), ('generation', 'Merlin++/ParticleBunch.cpp: constructor from a generator and a beam'), ('distributions and filters', 'Merlin++/ParticleDistributionGenerator.cpp, HaloParticleDistributionGenerator.cpp, BunchFilter.cpp')],
     'Random numbers enter by the ranges requested from the source (RandomNG itself is outside). Bounded: four particles, one refused candidate. Recovery from moments for uncoupled beams with distinct emittances. Exact real arithmetic.')
prop('C01', 'Collimation loses exactly the particles outside the aperture',
     'During tracking through a collimator or any other element with an aperture, exactly the particles that are outside it where the element is checked are lost, and all others stay in the bunch unchanged, in order. Every lost particle is reported once, with its element, its turn and a place within the element, and once too many of the bunch are lost the run stops with an error. A proton in a collimator is scattered inside the jaw only, over the length of the bin, and is lost on an inelastic interaction or when too little energy remains.',
     'inputs', 'all particle coordinates, element lengths, step sizes, apertures, thresholds and scattering outcomes',
     'The loss bookkeeping crosses the particle list, the index list and the bins of the collimator; last bins and thin elements are rarely hit by the tests.',
     'CollimateParticleProcess.cpp CollimateProtonProcess.cpp CollimateParticleProcess.h CollimateProtonProcess.h',
     [('aperture check and removal', 'Merlin++/CollimateParticleProcess.cpp: DoCollimation, SetCurrentComponent, DoProcess, bin_lost_output'), ('scattering of protons', 'Merlin++/CollimateProtonProcess.cpp: DoScatter, DoOutput')],
     'Apertures and the scattering model are uninterpreted. Bounded: bunches of three particles; planes, bins and places symbolic. One known finding: a scattered proton that leaves the jaw is put beyond the end of the bin.')
prop('C02', 'The loss map counts every loss once at its place',
     'The loss map adds up to the number of lost particles. In the per-element, per-interval and exact modes every loss is counted in exactly one entry, that of its element and place, with the start, length and name of its element, and the entries are unique and in order along the lattice. The detailed output keeps all coordinates, turn, place and identity of the losses in exactly the elements asked for.',
     'inputs histories', 'all places of losses in elements, all assignments and orders of losses, all output modes and name patterns',
     'The merge of consecutive losses treats the first loss and changes of element specially; tests check one map of one run by eye.',
     'LossMapCollimationOutput.cpp LossMapCollimationOutput.h DetailedCollimationOutput.cpp CollimationOutput.cpp CollimationOutput.h',
     [('recording', 'Merlin++/LossMapCollimationOutput.cpp: Dispose, Merlin++/DetailedCollimationOutput.cpp: Dispose'), ('merging', 'Merlin++/LossMapCollimationOutput.cpp: Finalise')],
     'Bounded: three losses in two elements, within the first 40 cm in the per-interval mode; the coordinates and places are symbolic. Reading the files written is not under contract.')
prop('E01', 'Slice bunches keep charge and moments',
     'The centroid, first and second moments of a slice bunch are the charge weighted mean and covariance of its slices, each with its own covariance. Changing the reference momentum or time to the mean leaves momentum and arrival time of every slice. Adding slices and splitting a bunch keep charge, order and moments. In a frame that is displaced, turned about the beam or tilted slightly, slices and their covariances are those seen from that frame.',
     'inputs', 'all slices, charges, moments, momenta and frame transformations, bunches of any number of slices',
     'No stable test tracks a slice bunch at all, and the covariance enters emittances only at second order of the distance between slices.',
     'SliceMacroParticle.cpp SliceMacroParticle.h SMPBunch.cpp SMPBunch.h SMPTransform3D.cpp R2Map.cpp',
     [('moments', 'Merlin++/SMPBunch.cpp: GetCentroid, GetMoments, GetProjectedMoments'), ('reference changes', 'Merlin++/SMPBunch.cpp: AdjustRefMomentumToMean, AdjustRefTimeToMean'), ('frames', 'Merlin++/SMPTransform3D.cpp: Apply; Merlin++/SMPBunch.cpp: ApplyTransformation')],
     'Exact real arithmetic. Slice loops unbounded.')
prop('E02', 'Slice tracking applies the linear map of each element',
     'A step of the slice integrators maps the centroid of every slice by the map of the element for its own momentum and its covariance by the Jacobian of that map: drifts, quadrupoles and higher multipoles, thick or thin, normal or skew, bends with their pole faces, solenoids and accelerating structures with their energy gain, slope damping and phase at the time of the slice. Elements with zero field act as drifts, and a monitor measures once, at its place.',
     'inputs', 'all field strengths, lengths, momenta, charges, phases, pole faces and bunches of any number of slices',
     'No stable test tracks a slice bunch; sign and rotation errors keep the maps symplectic and the beam stable.',
     'SMPStdIntegrators.cpp BasicTransportMaps.cpp SMPBunch.h TransportRMap.cpp R2Map.cpp',
     [('steps of the slice set', 'Merlin++/SMPStdIntegrators.cpp: TrackStep, TrackEntrance, TrackExit'), ('bunch', 'Merlin++/SMPBunch.cpp')],
     'Second moments of one generic slice; slice loops unbounded. Accelerating structure: step of at least a micrometre. Exact real arithmetic.')
prop('G03', 'The model holds exactly the components appended, found by name and range',
     'A model built from components and nested frames lists every component and patch once, in the order appended, with its index, all frames in their parents and in the repository, and asked-for drifts in between. Ranges by index or by name run between exactly the named components or are refused, and rings wrap around. A search returns exactly the components whose type and name match the pattern, in order. An element installed at a place splits the drift found there and keeps all other places.',
     'inputs', 'all nestings of frames and kinds of components, name patterns with wild cards and alternatives, lengths and places',
     'Patches, nested frames and patterns with several wild cards do not occur in the lattices of the tests.',
     'AcceleratorModelConstructor.cpp AcceleratorModel.cpp AcceleratorModel.h ElementRepository.cpp StringPattern.cpp SequenceFrame.cpp',
     [('construction', 'Merlin++/AcceleratorModelConstructor.cpp: AppendFrame, AppendComponent, EndFrame, GetModel; ModelElementExtractor'), ('queries', 'Merlin++/AcceleratorModel.cpp: GetBeamline, GetRing, ExtractComponents, GetIndexes, InstallModelElement'), ('patterns', 'Merlin++/StringPattern.cpp: Match, operator=; Merlin++/ElementRepository.cpp: Find, Count')],
     'Bounded: models of four components and two levels of frames, patterns of up to eight and names of up to five characters (enumerated). Lengths and places symbolic.')
prop('X01', 'An imported lattice has the elements its table describes',
     'Importing a lattice table gives one component per row, in order, with its name, length and place along the line, of the type the row names: bends with angle, gradient, pole faces and tilt, multipoles, correctors, solenoids, cavities and the rest with the fields that the strengths of the row mean at the beam momentum, lowered by the radiation losses upstream if asked. Types treated as drifts become drifts, line rows open and close frames, further files append. Table cells keep their typed values.',
     'inputs', 'all lengths, strengths, angles, momenta and combinations of rows and options',
     'Tests import few lattices and compare optics of standard magnets; rarer types, tilts, kickers, options and sequences of files never occur.',
     'MADInterface.cpp MADInterface.h DataTable.cpp DataTable.h',
     [('component factories', 'Merlin++/MADInterface.cpp: ...Component::GetInstance, TypeFactory'), ('rows and frames', 'Merlin++/MADInterface.cpp: ConstructModel, TypeOverrides, ConstructNewFrame, EndFrame'), ('table', 'Merlin++/DataTable.cpp')],
     'The table enters as data: parsing of the text file is outside. Field strengths zero or above the tolerance of the field expansion. Cavity lengths of one to three half waves; tables of at most seven rows.')

prop('O01', 'Optics calculations return the optics of the line that is tracked',
     'A transfer matrix has as columns the response of tracking to each coordinate, over a turn from any component or a range of components. The closed orbit is the fixed point of a turn (of the transverse coordinates, keeping time and momentum, if asked), dispersion its derivative with momentum, RMS orbit and dispersion quadratic means weighted with length. Lattice function tables hold, at every element boundary, position, orbit, products of the eigenvector components carried there by tracking, and their phase in turns; means, RMS, lookups and energy derivatives are those of the table, and phase advances count whole turns. Path length scaling in bends acts there only, in proportion to length.',
     'inputs', 'all linear maps, orbits, displacements, eigenvectors, lengths, ranges and options',
     'Tests compare a table of one machine with another code at a tolerance; coupled, unstable, dispersive and displaced orbits, partial ranges and other observation points never occur.',
     'ClosedOrbit.cpp TransferMatrix.cpp Dispersion.cpp LatticeFunctions.cpp LatticeFunctions.h PhaseAdvance.cpp RingDeltaTProcess.cpp',
     [('closed orbit', 'Merlin++/ClosedOrbit.cpp: FindClosedOrbit, FindRMSOrbit'), ('transfer matrix', 'Merlin++/TransferMatrix.cpp: FindTM'), ('dispersion', 'Merlin++/Dispersion.cpp'), ('lattice functions', 'Merlin++/LatticeFunctions.cpp: DoCalculate, CalculateLatticeFunction, Mean, RMS, GetSPosIndex'), ('phase advance', 'Merlin++/PhaseAdvance.cpp: CalcIntegerPart')],
     'The components of the line are boxes with an arbitrary linear map; the singular value solver, the eigensystem and matrix inversion enter by their contracts (arguments checked against the contract); the contract of inversion and of LU factorisation is discharged for matrices of up to two rows and of three with one of any values, all pivots. Lines of one to three components, tables of up to four rows.')
prop('H01', 'A hollow electron lens kicks each particle by the current inside its radius',
     'Particles inside the inner radius of a hollow electron lens are not touched; outside, the kick is along the line to the axis of the lens, proportional to the electron current within the radius of the particle (uniform or measured density) and inversely to that radius, focusing or defocusing as the electron direction says. It acts once per passage, with the turn counted once: always, at random, every so many turns or modulated at the tune swept in steps, as set. Positions, other particles and other components are left alone.',
     'inputs', 'all positions, offsets, radii, currents, rigidities, modes, turns, tunes, multipliers and bunches of any size',
     'Tests compare one configuration with stored output, centred, in one step per element.',
     'HollowELensProcess.cpp HollowElectronLens.cpp',
     [('kick and modes', 'Merlin++/HollowELensProcess.cpp: DoProcess, CalcKickSimple, CalcKickRadial, SetCurrentComponent'), ('parameters', 'Merlin++/HollowElectronLens.cpp: SetAC, SetRadii, SetTurnskip')],
     'Exact real arithmetic; particle loops unbounded. Swept tune with dyadic steps, turn numbers up to eleven (enumerated). The random number generator enters as any value of its range. Known finding: the velocity of the protons is taken as that of light.')


prop('Y01', 'Synchrotron radiation takes what the momentum and the field radiate',
     'In each step of a radiating magnet every particle loses e^3 mu0 eV / (6 pi m^2) times the square of the field at its place, the square of its momentum and the length, or, with photons, as many photons as a Poisson variable of the mean number gives, each drawn for the critical energy of field and momentum; its direction (or slope), position and time are kept and no particle is lost. The reference momentum follows the mean loss of the bunch if asked and is otherwise kept, absolute momenta unchanged by the change of reference. Bends radiate always, other magnets if asked, other components never, and the steps of the process cover each magnet once, however other processes divide them.',
     'inputs', 'all fields up to quadrupole order, lengths, momenta, particles and bunches of any size; up to three steps per magnet, two photons per step',
     'No test tracks with synchrotron radiation and checks the loss; lengths that do not divide exactly are not sampled.',
     'SynchRadParticleProcess.cpp MultipoleField.cpp ParticleBunch.cpp',
     [('loss, photons, reference', 'Merlin++/SynchRadParticleProcess.cpp: ApplySR, DoProcess'), ('steps and components', 'Merlin++/SynchRadParticleProcess.cpp: SetCurrentComponent, GetMaxAllowedStepSize, SetNumComponentSteps, SetMaxComponentStepSize')],
     'Exact real arithmetic; particle loops unbounded. The random number generator and the photon spectrum enter as any value of their range. Number of steps up to three and of photons up to two enumerated.')

prop('W02', 'Wake fields act on each slice by the charge ahead and conserve the charge',
     'The bunch is cut along its time coordinate into slices: every particle lies in the slice of its time, those outside the range asked are removed (the charge of the bunch kept) and the density is the number in each slice over total and width, its slope the fit of the smoothing filter, which returns exactly the derivative asked of a polynomial of its order. The wake at a boundary is the sum over the slices ahead of their charge (times their mean offset, transversely) times the potential at their distance; for coherent radiation the slope of the charge behind. A particle is kicked by the value interpolated between the boundaries of its slice, over its momentum, and the reference momentum follows the mean loss. For slice macro-particles: slices no longer than the width, wake of those ahead and half its own, momentum spread and shape scaled by the momentum, reference lowered by the load. The kick acts once in each component with a wake of the process, at its centre or exit, and never elsewhere.',
     'inputs', 'all potentials, coordinates, charges, densities, lengths, momenta and smoothing coefficients; bunches of any size for the kick, of three particles for cutting; up to four slices',
     'No test tracks with wake fields (constructing the process crashed).',
     'WakeFieldProcess.cpp SMPWakeFieldProcess.cpp ParticleBunchUtilities.cpp TLASimp.h',
     [('slices and density', 'Merlin++/ParticleBunchUtilities.cpp: ParticleBinList, TruncateZ; Merlin++/SMPWakeFieldProcess.cpp: PrepSlices'), ('wake', 'Merlin++/WakeFieldProcess.cpp: CalculateWakeL, CalculateWakeT, savgol; Merlin++/SMPWakeFieldProcess.cpp: PrepLWake'), ('kick', 'Merlin++/WakeFieldProcess.cpp, SMPWakeFieldProcess.cpp: ApplyWakefield, DoProcess, SetCurrentComponent')],
     'Exact real arithmetic; potentials are uninterpreted functions. Particle loop of the kick unbounded; cutting into slices bounded to three particles and three slices, the sums over slices to four. Coupler, collimator and radiation wakes outside.')

prop('K01', 'Monitors record the beam as it is; klystrons and channels set what they name',
     'A position monitor sends each of its buffers, and the default one, once, the centroid of the bunch with noise of the variance of its resolution, times its scale, through its response, at the reference time; nothing when inactive. A profile monitor records the mean and the width of the bunch along its three wires, with the correlation of the planes in the angled one. Offsets of a position monitor are those set in each plane. A klystron holds the vector sum of its cavities; setting its voltage, phase or phasor gives each cavity an equal share (balanced) or scales all of them, keeping their ratios, to that sum. A channel reads and writes the parameter of its element and no other, singly, together or by increments, and a saved state of channels is restored exactly.',
     'inputs', 'all bunches, noise, scales, resolutions, voltages, phases and settings',
     'No test uses monitors, klystrons or channels.',
     'BPM.cpp RMSProfileMonitor.cpp Klystron.cpp Channels.cpp BPMChannel.cpp RWChannelState.cpp IndirectChannels.h AMBufferManager.h',
     [('monitors', 'Merlin++/BPM.cpp, RMSProfileMonitor.cpp: MakeMeasurement; Merlin++/AMBufferManager.h: SendToBuffers; Merlin++/BPMChannel.cpp'), ('klystron', 'Merlin++/Klystron.cpp: AdjustCavities, AdjustVectorSum'), ('channels', 'Merlin++/Channels.cpp, IndirectChannels.h, RWChannelState.cpp')],
     'Exact real arithmetic; random numbers enter as any value, their variance as asked. Bunches of any size for position monitors, of two particles for profiles; up to three cavities balanced, two in phase or one of any phase by vector sum; arrays of three channels.')
