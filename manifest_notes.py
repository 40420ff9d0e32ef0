TECH = {}
NOTE.update({
    'C01': 'every matrix operation, factory, slice and setter proved for all shapes and contents; transformations, filters, kernels proved; training proved to work on copies only; prediction proved for any trained state (PCA, FastICA: bounded runs)',
    'C04': 'proved for all shapes; the nested list search `which` is bounded in one direction',
    'C08': 'writing, line layout and reading proved for every matrix, separator, header setting and number of decimals over a text model (engine/text.py); that number formatting and parsing are correctly rounded is assumed and sampled on the real code',
    'C09': 'partition, sort, maximum search by loop invariants over every list (engine/hoare.py); line fitting proved; that n different positions form a permutation is the pigeonhole principle',
    'C13': 'proved for every window, orders, width and data on the assumption that numpy.linalg.solve solves; polynomial reproduction for enumerated windows; rounding of wide windows bounded',
    'C14': 'packing and modes proved for all widths; three obligations of the unpacking direction are bounded',
    'C15': 'proved for all widths; scatter correction with several ranges is bounded',
    'C18': 'proved: training starts from the state of a new object whatever happened before (start_*), and answering changes no trained state (pure_*); whole retraining runs are bounded cross-checks; DIPLS centring objects: known finding',
    'C19': 'preprocessing around an arbitrary underlying model, and row independence of an arbitrary trained model, proved for all sizes; whole-model equalities bounded',
    'C20': 'projection by any trained matrices, predictions as data times coefficients, covariance, weights and their composition proved; eigenvector ordering, canonical correlation and PCA component choice bounded',
})
