PROPS = []
def P(id, **k): k['id'] = id; PROPS.append(k)
ROUND = 'floating-point rounding and overflow (doubles are exact reals)'
P('P01', title='Matrix and vector arithmetic computes the algebraic result',
  statement='Every sum, difference, product, scaling and transposition of matrices, symmetric matrices, column vectors and row vectors yields exactly the result of linear algebra, in the plain and in the in-place form. Operands that are not the target of the operation keep their values. Both matrix libraries that can be selected at build time agree.',
  quant='all entry values, all shapes within the bound, both matrix libraries, aliased operands included',
  why='The matrix tests multiply a handful of fixed square matrices with the library chosen at build time; shapes, aliasing and the other library are never exercised.',
  files=['wrappers/matrix/matrix_BOOST.cpp', 'wrappers/matrix/vector_BOOST.cpp', 'wrappers/matrix/matrix_EIGEN.cpp', 'wrappers/matrix/vector_EIGEN.cpp'],
  mech=[('operator overloads of the two matrix back ends', 'wrappers/matrix/matrix_BOOST.cpp')], obs=['values returned by the operators'], over=['inputs', 'configurations'],
  bounds='shapes up to 4x4 with every entry symbolic, products up to 3x4*4x3 symbolic and 5x6*6x5 with one factor mostly concrete; 5 to 9 (vectors 5 to 12) with single free entries; larger spot sizes up to 40x40, concrete but for single free values.', outside='larger shapes, mismatched dimensions, ' + ROUND + '.')
P('P02', title='Inverse and determinant are exact, singular matrices included',
  statement='The determinant of a square matrix equals the Leibniz sum for every matrix, singular ones included. The inverse of every non-singular matrix multiplied by the matrix gives the identity, and neither operation changes its operand.',
  quant='all matrices within the bound, whatever pivoting they provoke', why='Tests invert a few well-conditioned fixed matrices; zero pivots, row exchanges and singular inputs are not reached.',
  files=['wrappers/matrix/matrix_BOOST.cpp', 'wrappers/matrix/matrix_EIGEN.cpp'], mech=[('LU factorisation with pivoting', 'wrappers/matrix/matrix_BOOST.cpp: Matrix::inverse, determinant')], over=['inputs', 'configurations'],
  bounds='determinant: 1x1 to 3x3 fully symbolic (singular included), 4x4 partly symbolic; inverse: 1x1 and 2x2 fully symbolic, 3x3 and 4x4 with symbolic entries around concrete ones; inverses and determinants of size 6 to 8 with one free entry; sizes 10 and 13, concrete but for single free values.', outside='fully symbolic inverses above the bound, ' + ROUND + '.')
P('P03', title='Copying, slicing, resizing and conversion preserve the right elements',
  statement='Element access is 1-based and reads back what was written; sub-matrix, row and column extraction, concatenation, resizing, assignment and conversion between matrix kinds put every source element at the documented place. The result never shares storage with its source.',
  quant='all contents, shapes, index ranges within the bound, both matrix libraries', why='Tests look at single fixed slices of fixed matrices with one library.',
  files=['wrappers/matrix/matrix_BOOST.cpp', 'wrappers/matrix/vector_BOOST.cpp', 'wrappers/matrix/matrix_EIGEN.cpp', 'wrappers/matrix/vector_EIGEN.cpp', 'wrappers/matrix/matrix_wrapper.h'], mech=[('sub, rowCopy, columnCopy, vectorAdd, resize, assign', 'wrappers/matrix/matrix_EIGEN.cpp')], over=['inputs', 'configurations'],
  bounds='shapes up to 4x4, every index range, every entry symbolic; 5 to 9 with single free entries; shapes up to 34x36, concrete but for single free values.', outside='indices outside the matrix; symmetric matrices filled on one triangle only with the Eigen library.')
P('P04', title='The Cholesky factor reproduces its matrix',
  statement='For every symmetric positive definite matrix the factorisation succeeds, its factor is lower triangular with non-negative diagonal and its product with its transpose is the matrix again. The operand is not changed.',
  quant='all positive definite matrices within the bound', why='A single fixed matrix is factored by the tests, indirectly.',
  files=['wrappers/matrix/matrix_wrapper.cpp'], mech=[('cholesky_semidefinite', 'wrappers/matrix/matrix_wrapper.cpp')],
  bounds='dimension 1 to 3 with all entries symbolic, 4 and 5 partly; 6 and up with concrete matrices and a free entry; dimension 12 and 20, concrete but for single free values.', outside='pivots below 1e-3 (the code treats pivots below its epsilon as zero), ' + ROUND + '.')
P('P05', title='Singular value decomposition and pseudo-inverse satisfy their equations',
  statement='For every matrix, of any shape and rank, the decomposition multiplies back to the matrix, its singular values are not negative, V is orthogonal and the columns of U that belong to positive singular values are orthonormal. The pseudo-inverse satisfies the Moore-Penrose equations, where singular values below the threshold given (0.01 by default) count as zero. The operand is not changed.',
  quant='all scalings, signs, shapes and ranks within the bound', why='Three fixed matrices of full rank are decomposed by the tests; rank deficiency, zero columns, wide matrices and the threshold are not reached.',
  files=['wrappers/matrix/matrix_wrapper.cpp'], mech=[('SVD, pseudoinverse', 'wrappers/matrix/matrix_wrapper.cpp')], over=['inputs', 'configurations'],
  bounds='matrices with orthogonal columns times symbolic factors up to 4x4 (two factors free up to size 3, one at size 4) and symbolic threshold; diagonal matrices of every shape up to 4x4 with free entries; zero matrices; one or more matrices of every shape and rank up to 7x7 (thorough: 10x10) with concrete entries times a symbolic scale in [0.5,4], coefficients in double precision and a tolerance of 1e-6.',
  outside='other matrices whose directions are symbolic (the iteration stops only through rounding); magnitudes outside the scales above, ' + ROUND + ' except in the coefficients of the last group.')
P('P06', title='Samples and weighted samples keep value and weight',
  statement='A sample holds exactly the value last stored in it and a weighted sample also the weight; construction, copying and assignment reproduce both and later changes to one object never show in another.',
  quant='all values, weights, dimensions and sequences of stores, copies and assignments within the bound', why='Tests check one value and one copy.',
  files=['sample/sample.h', 'sample/weightedsample.h', 'sample/sample.cpp', 'sample/weightedsample.cpp'], mech=[('value and weight members with copy constructor and assignment', 'sample/weightedsample.h')], over=['inputs', 'histories'],
  bounds='vector dimension up to 3 and discrete values, histories of up to 4 operations; dimensions up to 12; dimension up to 40, concrete but for single free values.', outside='other value types.')
P('P07', title='The Gaussian density is the normal density of the current parameters',
  statement='At every point the density of a Gaussian equals the multivariate normal formula for the mean and covariance most recently set, whatever evaluations, changes, copies or clones came before. Reading the parameters returns them unchanged.',
  quant='all means, positive definite covariances, points, and orders of setting and evaluating', why='Tests evaluate a few points; stale cached inverses need a particular order of changes and evaluations.',
  files=['pdf/gaussian.cpp'], mech=[('cached inverse and factor invalidated on change', 'pdf/gaussian.cpp: CovarianceSet, ProbabilityGet')], over=['inputs', 'histories'],
  bounds='dimension 1 and 2 fully symbolic, 3 and 4 with concrete covariance and symbolic mean and point; histories of up to 4 operations; dimension 5 to 8 with concrete covariance; dimension 11 and 16, concrete but for single free values.', outside='covariances that are not positive definite, ' + ROUND + '.')
P('P08', title='Gaussian samples have the mean and covariance of the Gaussian',
  statement='A sample drawn from a Gaussian is an affine function of independent standard normal draws whose offset is the mean and whose gain times its transpose is the covariance, for the parameters in force at the time of drawing. A request for k samples yields exactly k, each from fresh draws.',
  quant='all means, covariances, draws, dimensions and orders of setting and sampling within the bound', why='Tests draw a few hundred samples and compare loosely, or only count them.',
  files=['pdf/gaussian.cpp', 'wrappers/rng/rng.cpp'], mech=[('Cholesky factor applied to normal draws', 'pdf/gaussian.cpp: SampleFrom')], over=['inputs', 'histories'],
  bounds='dimension 1 to 3 symbolic, lists of up to 3 samples, histories of up to 3 operations; dimension 5 to 8 with concrete covariance, lists of 5 to 12 samples and of none; dimension 12 and 20, copies and assignments of dimension 1 and 2, concrete but for single free values.', outside='quality of the random generator; pivots below 1e-3.', assume=['random draws are arbitrary values within the documented range'])
P('P09', title='Uniform densities and samples respect the box',
  statement='The density of a uniform distribution is one over the volume inside the box given by centre and width and zero outside. Every sample lies in the box and is the linear image of its uniform draws; redefining the box takes effect for both.',
  quant='all centres, positive widths, points, draws, dimensions within the bound', why='Tests use one box and check that samples fall inside.',
  files=['pdf/uniform.cpp'], mech=[('bounds and height kept per dimension', 'pdf/uniform.cpp')], over=['inputs', 'histories'],
  bounds='dimension 1 to 3, lists of 0 to 3 samples; dimension up to 8; dimension 12 and 20, concrete but for single free values.', outside='boxes with a zero width, ' + ROUND + '.')
P('P10', title='A discrete distribution stays a probability distribution',
  statement='After any sequence of constructions, probability changes, copies and assignments the probabilities of a discrete distribution are non-negative, sum to one, keep the ratio prescribed by the last change, and the most probable state reported has maximal probability. Copies never influence each other.',
  quant='all values and all sequences of operations within the bound', why='Tests set a single state once and look at one value.',
  files=['pdf/discretepdf.cpp'], mech=[('renormalisation after every change', 'pdf/discretepdf.cpp: ProbabilitySet, ProbabilitiesSet, NormalizeProbs')], over=['inputs', 'histories'],
  bounds='1 to 5 states, histories of up to 3 changes; up to 12 states with free values in a concrete table; up to 130 states, 40 changes, concrete but for single free values.', outside='distributions without states, value lists with zero total.')
P('P11', title='Discrete sampling follows the probabilities',
  statement='Each state is drawn exactly for the uniform draws in its interval of the cumulative distribution, so states of probability zero never occur and the state is always an existing one, also right after a change of the probabilities. A request for k samples yields exactly k, with every supported sampling method.',
  quant='all probabilities, all draws including zero, sizes within the bound', why='Tests draw a few samples; boundary draws have probability zero.',
  files=['pdf/discretepdf.cpp'], mech=[('cumulative table and inverse transform; ordered uniforms', 'pdf/discretepdf.cpp: SampleFrom')], over=['inputs', 'histories'],
  bounds='1 to 5 states, lists of 0 to 3 samples; 6 to 16 states and lists of 4 to 9 and more draws (concrete but one); up to 130 states, 70 draws, concrete but for single free values.', outside='quality of the random generator, ' + ROUND + '.')
P('P12', title='Discrete conditional distributions look up the right table entry',
  statement='The probability of a state given the conditional arguments is the value stored for exactly that state and combination, for every number and size of arguments and order of filling. Sampling draws from the row of the current arguments, normalised; copies and assignments are independent.',
  quant='all tables, argument combinations, draws and shapes within the bound', why='Tests use one table with one argument.',
  files=['pdf/discreteconditionalpdf.cpp'], mech=[('mixed-radix index into the table', 'pdf/discreteconditionalpdf.cpp: IndexGet')], over=['inputs', 'histories'],
  bounds='1 to 4 states, up to 3 arguments of up to 4 values; up to 7 values per argument and 5 arguments in a concrete table; 33 and 70 states, concrete but for single free values.', outside='arguments out of range, rows that are all zero for sampling.')
P('P13', title='Conditional Gaussians follow arguments, matrices and noise',
  statement='The mean, covariance, Jacobians, density and samples of a linear conditional Gaussian are those of the sum of each matrix times its argument plus the additive noise, for the values most recently set; user models built on the additive-noise bases get density and samples from their own mean and the noise covariance. Clones are independent.',
  quant='all matrices, arguments, noise parameters, points, draws, argument counts and histories within the bound', why='Tests use one fixed model.',
  files=['pdf/linearanalyticconditionalgaussian.cpp', 'pdf/analyticconditionalgaussian_additivenoise.cpp', 'pdf/conditionalgaussian_additivenoise.cpp', 'pdf/conditionalgaussian.cpp', 'pdf/conditionalpdf.h'], mech=[('mean and covariance recomputed from arguments', 'pdf/linearanalyticconditionalgaussian.cpp')], over=['inputs', 'histories'],
  bounds='dimension 1 to 3 (5 thorough), up to 3 arguments of dimension up to 3, histories of up to 3 changes; density fully symbolic in dimension 1 and 2; dimension 6 and 8 with 4 and 5 arguments; dimension 20, concrete but for single free values.', outside='numerical differentiation defaults, ' + ROUND + '.')
RNGA = ['random draws are arbitrary values within the documented range']
P('P14', title='Sample-based densities keep normalised weights and exact moments',
  statement='After any sequence of setting, updating, copying and assigning sample lists, a sample-based density holds exactly the samples last given with weights that are non-negative, sum to one and keep the given ratios. Its cumulative distribution, mean and covariance are the weighted sums over exactly those samples.',
  quant='all sample values and weights, sizes, and orders of operations within the bound', why='Tests build one list and compare one mean.',
  files=['pdf/mcpdf.h'], mech=[('sum of weights, cumulative table, cached mean and covariance', 'pdf/mcpdf.h: ListOfSamplesSet, ListOfSamplesUpdate, NormalizeWeights, CumPDFUpdate, ExpectedValueGet, CovarianceGet')], over=['inputs', 'histories'],
  bounds='1 to 5 samples of dimension 1 to 3 and discrete samples, histories of up to 2 operations (3 thorough); 6 to 12 samples of dimension up to 5 with single free entries; densities constructed without a dimension; discrete values up to 200000; up to 50 samples of dimension 7, concrete but for single free values.', outside='lists whose total weight is zero (rejection only is checked), ' + ROUND + '.')
P('P15', title='Sampling a sample-based density follows the weights',
  statement='Drawing from a sample-based density returns the sample whose interval of the cumulative weights contains the draw, for every draw including zero, never a sample of weight zero, and follows every change of the sample list. A request for k samples yields exactly k, independently drawn or ordered.',
  quant='all weights, draws, sizes and preceding histories within the bound', why='Boundary draws and zero weights have probability zero in random tests.',
  files=['pdf/mcpdf.h'], mech=[('inverse transform over the cumulative table', 'pdf/mcpdf.h: SampleFrom')], over=['inputs', 'histories'],
  bounds='1 to 5 samples, 0 to 3 draws, densities constructed with and without a dimension, histories of up to 2 changes; 5 to 16 samples and 4 to 10 draws (concrete but one); up to 110 samples, 70 draws, concrete but for single free values.', outside='quality of the random generator, ' + ROUND + '.', assume=RNGA)
P('P16', title='A mixture is the weighted sum of privately owned components',
  statement='After any sequence of adding, deleting and reweighting components, copying and assigning, the mixture weights are non-negative and sum to one and follow the last change; density and mean are the weighted sums over the components. Components are private copies: neither the caller nor a copy of the mixture sees or causes changes.',
  quant='all weights, component parameters, points and sequences of operations within the bound', why='Tests build one mixture and call each operation once.',
  files=['pdf/mixture.h'], mech=[('weight renormalisation and component cloning', 'pdf/mixture.h: WeightSet, WeightsSet, AddComponent, DeleteComponent')], over=['inputs', 'histories'],
  bounds='0 to 5 components of dimension 1 to 3, sequences of up to 2 changes (3 thorough); up to 9 components; 20 and 40 components, concrete but for single free values.', outside='weights of a single component other than one, ' + ROUND + '.')
P('P17', title='Sampling a mixture picks components by weight',
  statement='A sample of a mixture is a sample of the component whose interval of the cumulative weights contains the draw, so that every component is chosen with exactly its weight, after any change of weights or components. A request for k samples yields exactly k.',
  quant='all weights, draws, sizes and preceding changes within the bound', why='Boundary draws have probability zero; random tests cannot see small shifts of the intervals.',
  files=['pdf/mixture.h'], mech=[('cumulative weights', 'pdf/mixture.h: SampleFrom, CumWeightsUpdate')], over=['inputs', 'histories'],
  bounds='1 to 4 components, 0 to 3 samples, sequences of up to 2 changes; 5 to 10 components and 4 to 9 draws (concrete but one); 20 and 40 components, 64 draws, concrete but for single free values.', outside='quality of the random generator, ' + ROUND + '.', assume=RNGA)
P('P19', title='System and measurement models evaluate at the given state and input',
  statement='Prediction, covariance, Jacobian, probability and simulation of system and measurement models are those of the underlying conditional density at exactly the state and input (or sensor parameter) passed in this call, whatever was passed before. Changing the matrices or replacing the density takes effect at once.',
  quant='all states, inputs, model matrices and call sequences within the bound', why='Tests call each getter once on one model.',
  files=['model/systemmodel.h', 'model/measurementmodel.h', 'model/linearanalyticsystemmodel_gaussianuncertainty.cpp', 'model/linearanalyticmeasurementmodel_gaussianuncertainty.cpp', 'model/analyticsystemmodel_gaussianuncertainty.cpp', 'model/analyticmeasurementmodel_gaussianuncertainty.cpp', 'model/discretesystemmodel.cpp'],
  mech=[('conditional arguments set before each evaluation', 'model/systemmodel.h')], over=['inputs', 'histories'],
  bounds='state and measurement dimension 1 to 3 (5 thorough), inputs of dimension up to 2, discrete systems of 1 to 3 states; two calls in sequence; states and measurements of size 6 to 8 with inputs of dimension 5, discrete systems of 6 and 9 states and 4 inputs; states up to 20, measurements up to 17, concrete but for single free values.', outside='GiNaC models (GiNaC is a compiled library that cannot be instrumented), ' + ROUND + '.', assume=RNGA)
P('P20', title='Kalman prediction gives F P F\' + Q around the predicted mean',
  statement='A system update of the (extended) Kalman filter replaces the mean by the model prediction at the current mean and input and the covariance by F P F\' + Q with F the Jacobian at the current mean, for linear and nonlinear models, with and without inputs and through any sequence of updates. The covariance stays symmetric and the prior the user supplied is left alone.',
  quant='all beliefs, models, inputs and sequences within the bound', why='Tests run one simulated trajectory and compare with a tolerance.',
  files=['filter/kalmanfilter.cpp', 'filter/extendedkalmanfilter.cpp'], mech=[('CalculateSysUpdate', 'filter/kalmanfilter.cpp'), ('SysUpdate', 'filter/extendedkalmanfilter.cpp')], over=['inputs', 'histories'],
  bounds='state dimension 1 to 3 fully symbolic, 4 and 5 partly (6 thorough), up to 3 updates; state 7 and 9, and 9 updates with concrete model matrices; states 12 and 20, long histories of dimension 1, concrete but for single free values.', outside=ROUND + '.')
P('P21', title='Kalman correction applies the optimal gain to the innovation',
  statement='A measurement update of the (extended) Kalman filter moves the mean by K(z - h) and the covariance to P - K H P with K = P H\'(H P H\' + R)^-1, evaluated at the current mean and sensor parameter, for measurements of any and changing dimension. A measurement never increases the variance, and the reported normalised innovation squared is that of the current belief and does not alter it.',
  quant='all beliefs, models, measurements, sensor parameters, dimensions and sequences within the bound', why='Tests run one simulated trajectory and compare with a tolerance.',
  files=['filter/kalmanfilter.cpp', 'filter/extendedkalmanfilter.cpp'], mech=[('CalculateMeasUpdate, CalculateNis, AllocateMeasModel', 'filter/kalmanfilter.cpp'), ('MeasUpdate', 'filter/extendedkalmanfilter.cpp')], over=['inputs', 'histories'],
  bounds='state 1 to 4 with measurement 1, state 1 and 2 with measurement 2 fully symbolic; up to state 5 and measurement 3 with single symbolic matrix entries; up to 3 updates; state 6 to 8 and measurement 1 to 4, and 8 updates, with concrete covariances; states 12 and 16, concrete but for single free values.', outside='singular innovation covariances, ' + ROUND + '.')
P('P23', title='The iterated Kalman correction relinearises at the latest iterate',
  statement='Each iteration of the iterated extended Kalman filter linearises the measurement model at the latest iterate around the same prior belief, and the resulting belief uses the gain and Jacobian of the last iteration. Iteration ends at the configured number or as soon as the squared step falls below the configured minimum; for a linear model the result is that of a single Kalman correction.',
  quant='all beliefs, models, measurements, thresholds and iteration counts within the bound', why='Tests run one simulated trajectory and compare with a tolerance; a linearisation at the wrong point still converges there.',
  files=['filter/iteratedextendedkalmanfilter.cpp', 'filter/innovationCheck.cpp', 'filter/kalmanfilter.cpp'], mech=[('iteration with relinearisation', 'filter/iteratedextendedkalmanfilter.cpp: MeasUpdate'), ('stopping rule', 'filter/innovationCheck.cpp: check')], over=['inputs', 'histories'],
  bounds='state dimension 1 to 3, 1 to 4 iterations; one iteration fully symbolic, more iterations with a concrete quadratic model and symbolic state, measurement and threshold; state 5 to 8 with measurement 2 to 4 and up to 9 iterations for linear models; states 11 and 14, concrete but for single free values.', outside='convergence of the iteration, ' + ROUND + '.')
P('P24', title='The square-root filter computes the same beliefs as the Kalman equations',
  statement='Predictions and (iterated) corrections of the square-root iterated extended Kalman filter give the mean and covariance of the Kalman equations for implicit measurement models, linearised at the latest iterate around the same prior belief. After every update, after a new prior and after Reset the square root it holds times its transpose is the covariance, and the prior the user supplied is left alone.',
  quant='all beliefs, measurements, inputs and sequences of updates within the bound', why='No test runs this filter; wrong factors cancel in dimension one.',
  files=['filter/SRiteratedextendedkalmanfilter.cpp', 'filter/kalmanfilter.cpp'], mech=[('SysUpdate, MeasUpdate, CalculateMatrix, CalculateCovariance, PriorSet, Reset', 'filter/SRiteratedextendedkalmanfilter.cpp')], over=['inputs', 'histories'],
  bounds='state and measurement dimension 1 with all quantities symbolic; state 1 to 3 (5 thorough) and measurement 1 to 3 (4 thorough) with concrete model matrices and covariances and symbolic means, inputs and measurements, up to 3 updates and iterations.', outside='symbolic covariances above dimension 1 (the filter runs a singular value decomposition that stops only by rounding), asymmetric square roots supplied by the measurement model, ' + ROUND + '.')
P('P25', title='The histogram filter is exact Bayes over discrete states',
  statement='A system update of the histogram filter gives every state the sum over all states of its probability times the transition probability, and a measurement update the normalised product with the likelihood, with and without inputs and sensor parameters, through any sequence of updates. The belief always sums to one and the prior the user supplied is left alone.',
  quant='all beliefs, transition tables, likelihoods, inputs and sequences within the bound', why='Tests run one model and compare a final estimate with a tolerance.',
  files=['filter/histogramfilter.cpp'], mech=[('SysUpdate, MeasUpdate', 'filter/histogramfilter.cpp')], over=['inputs', 'histories'],
  bounds='1 to 4 states, 1 to 3 inputs and sensor parameters, discrete and continuous measurements, up to 3 updates; 6 to 12 states with 5 inputs and 7 measurement values, and 10 updates, with concrete tables holding one free row; 20 and 40 states, long histories of 3 states, concrete but for single free values.', outside='measurements that are impossible in every state, ' + ROUND + '.')
P('P26', title='Particle filter weights follow the likelihood and the proposal',
  statement='A system update moves every particle through the proposal given its own old value and the input and keeps its weight; a measurement update multiplies every weight by the likelihood at the particle, and by transition density over proposal density when both come in one update, and normalises. Particles keep their order, each gets fresh draws, a bootstrap filter proposes from the model given in the call, and the prior is left alone.',
  quant='all particles, weights, densities, draws, inputs, sensor parameters and sequences within the bound', why='Tests compare the mean of thousands of particles with a tolerance; a wrong weight factor stays within it.',
  files=['filter/particlefilter.cpp', 'filter/bootstrapfilter.cpp'], mech=[('ProposalStepInternal, UpdateWeightsInternal', 'filter/particlefilter.cpp'), ('UpdateInternal', 'filter/bootstrapfilter.cpp')], over=['inputs', 'histories'],
  bounds='1 to 4 particles of dimension 1 and 2, up to 2 updates; densities are arbitrary non-negative values per pair of points, or linear Gaussian; 6 to 10 particles and 9 updates with concrete weights and densities but one; 20 and 40 particles, concrete but for single free values.', outside='weights that all become zero, ' + ROUND + '.', assume=RNGA)
P('P27', title='Particle filters resample exactly when configured, and fairly',
  statement='With a resampling period a particle filter resamples before every prediction whose number is a multiple of the period, with a threshold after every measurement update that leaves the effective number of particles below it, and never otherwise. Each survivor is the particle whose interval of the cumulative weights contains its ordered uniform draw, and all weights are equal afterwards.',
  quant='all weights, likelihoods, draws, periods, thresholds and sequences within the bound', why='Resampling at the wrong time or with slightly wrong intervals is invisible in tests that compare means of thousands of particles.',
  files=['filter/particlefilter.cpp', 'pdf/mcpdf.h'], mech=[('StaticResampleStep, DynamicResampleStep, Resample', 'filter/particlefilter.cpp'), ('ordered sampling', 'pdf/mcpdf.h: SampleFrom')], over=['inputs', 'histories'],
  bounds='1 to 3 particles, periods 1 to 4 over up to 9 steps, any threshold, up to 2 resampling steps; 5 and 8 particles with concrete weights and draws but one, periods of 5 to 12; periods 20 and 35, concrete but for single free values.', outside='the resampling schemes without an implementation (systematic, stratified, residual), ' + ROUND + '.', assume=RNGA)
P('P28', title='Extended-Kalman particles carry their own belief and honest weights',
  statement='In an extended-Kalman particle filter every particle is moved by a draw from the extended Kalman belief computed from its own value and its own covariance, and keeps the covariance of that belief for the next step. Its weight is multiplied by likelihood times transition density over exactly that proposal density and normalised; resampling selects particles together with their covariances and leaves equal weights.',
  quant='all draws and measurements, and all uniform draws of the resampling, for the models within the bound', why='Tests only look at the mean of the particles within a tolerance.',
  files=['filter/EKparticlefilter.cpp', 'pdf/filterproposaldensity.cpp', 'pdf/EKF_proposaldensity.cpp', 'pdf/conditionalgaussian.cpp'], mech=[('ProposalStepInternal, UpdateWeightsInternal, Resample', 'filter/EKparticlefilter.cpp'), ('FilterStep', 'pdf/filterproposaldensity.cpp')], over=['inputs', 'histories'],
  bounds='1 to 3 particles of dimension 1 and 2 with concrete positions, concrete quadratic and linear models with and without inputs and sensor parameters, up to 2 updates, symbolic measurements and draws.', outside='updates without a system or without a measurement model (not supported by this filter), ' + ROUND + '.', assume=RNGA)
P('P29', title='Mixture particle filters treat components as separate filters',
  statement='In a mixture particle filter a prediction moves and a measurement reweights the particles of every component as a particle filter of its own would, each component weight is multiplied by the total likelihood of its particles and the component weights are normalised. Resampling acts within a component and leaves component weights, a prediction counts as one time step, and the prior mixture is left alone.',
  quant='all particles, weights, component weights, densities, draws and sequences within the bound', why='No test runs this filter with more than a mean comparison.',
  files=['filter/mixtureParticleFilter.cpp', 'filter/mixtureBootstrapFilter.cpp'], mech=[('ProposalStepInternalOne, UpdateWeightsInternal, ResampleOne, StaticResampleStep', 'filter/mixtureParticleFilter.cpp')], over=['inputs', 'histories'],
  bounds='1 to 3 components of 1 to 3 particles, up to 4 updates, any threshold, periods 1 and 2; 4 and 6 components of 2 to 5 particles with concrete weights but one; 9 and 17 components, concrete but for single free values.', outside='components whose particles all become impossible, the constructors taking a posterior (they do not compile), mixture maintenance (user supplied), ' + ROUND + '.', assume=RNGA)
P('P30', title='The Rauch-Tung-Striebel smoother conditions on later states',
  statement='A backward step of the Rauch-Tung-Striebel smoother combines the belief about the next state with the filtered belief: mean and covariance are those of the filtered belief corrected with gain P F\'(F P F\' + Q)^-1, where F, Q and the prediction are evaluated at the filtered mean and given input. Sequences of steps, with and without inputs, linear or not, follow the same rule, and neither the filtered beliefs nor the initial one are changed.',
  quant='all beliefs, inputs and sequences within the bound', why='The test smooths one simulated trajectory and compares within a tolerance.',
  files=['smoother/rauchtungstriebel.cpp', 'smoother/backwardfilter.cpp'], mech=[('SysUpdate', 'smoother/rauchtungstriebel.cpp')], over=['inputs', 'histories'],
  bounds='dimension 1 fully symbolic, 2 to 4 (5 thorough) with concrete model matrices or single symbolic ones, up to 3 backward steps; state 5 and 7 and 8 backward steps with concrete models.', outside='singular predicted covariances, ' + ROUND + '.')
P('P31', title='The particle smoother reweights filtered particles by later belief',
  statement='A backward step of the particle smoother returns exactly the filtered particles, each weight multiplied by the sum over the smoothed particles of their weight times the transition density from this particle, divided by the total transition density from all weighted filtered particles, and normalised. This holds for any and different numbers of particles, with and without inputs and over several steps; the filtered set and the initial one are left alone.',
  quant='all weights, particle values and transition densities, sizes and sequences within the bound', why='The test only checks that the result is near the true state for one simulation.',
  files=['smoother/particlesmoother.cpp', 'smoother/backwardfilter.cpp'], mech=[('SysUpdate', 'smoother/particlesmoother.cpp')], over=['inputs', 'histories'],
  bounds='1 to 3 smoothed and filtered particles (4 thorough), up to 2 backward steps; transition densities are arbitrary non-negative values; 4 to 9 particles and 5 backward steps with concrete weights and densities but one; 18 to 36 particles, concrete but for single free values.', outside='all smoothed particles unreachable, ' + ROUND + '.')
P('P32', title='Reset restarts a filter from a belief that stays the caller\'s',
  statement='After Reset a filter or smoother behaves in every later update like a new one built on the given belief, also when number of particles, states or components or the dimension differ from before. The belief passed in is never changed or freed by the filter, neither during updates nor at its destruction, and earlier priors are not touched either.',
  quant='all beliefs, sizes and preceding updates within the bound', why='Tests never call Reset and then look at the belief that was passed in.',
  files=['filter/kalmanfilter.cpp', 'filter/histogramfilter.cpp', 'filter/particlefilter.cpp', 'filter/mixtureParticleFilter.cpp', 'smoother/rauchtungstriebel.cpp', 'smoother/particlesmoother.cpp', 'filter/filter.cpp'], mech=[('Reset of each filter', 'filter/kalmanfilter.cpp'), ('Reset', 'filter/particlefilter.cpp')], over=['inputs', 'histories'],
  bounds='dimension 1 and 2, 1 to 3 states or particles, 1 and 2 components, one or two resets with up to two updates before; dimension up to 7 and 8 particles with concrete covariances and weights; up to 33 particles, concrete but for single free values.', outside='resetting a mixture particle filter through a pointer to its base class, ' + ROUND + '.', assume=RNGA)
P('P33', title='Random draws are affine images of fresh standard draws',
  statement='A normal draw is the mean plus the standard deviation times the standard normal draw the generator delivers at that point, and a uniform draw between two bounds is the affine image of the standard uniform draw, at least the lower bound and below the upper one. Every call consumes a fresh draw, whatever kinds of draws came before.',
  quant='all means, deviations and bounds, at the generator states within the bound', why='Tests do not look at the values of draws.',
  files=['wrappers/rng/rng.cpp'], mech=[('rnorm, runif', 'wrappers/rng/rng.cpp')], over=['inputs', 'histories'],
  bounds='the first 6 draws of each kind from the initial state of the generator and 3 more after 1 to 12 earlier draws (40 after 700 thorough); bounds of uniform draws within 1e9 of zero.', outside='quality and distribution of the standard draws of the underlying generator, ' + ROUND + '.')
P('P34', title='Symbolic (GiNaC) models agree with their expressions',
  statement='The mean and the Jacobians of a model defined by a GiNaC expression are the value and derivatives of that expression at the given state, input and noise.',
  quant='all expressions, states and inputs', why='Tests evaluate one expression at one point.', files=['pdf/nonlinearanalyticconditionalgaussian_ginac.cpp', 'model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp', 'model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp'], mech=[('substitution and differentiation of expressions', 'pdf/nonlinearanalyticconditionalgaussian_ginac.cpp')],
  na='Values pass through GiNaC and CLN, which are installed as compiled shared libraries without sources: their code cannot be encoded, and a symbolic double cannot pass through their number type.')
