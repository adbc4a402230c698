NOTES = {
 'C01': 'Definitions by recursion over the list (`SUMV`, `COUNTV`, `MINV`, ... in contracts/base.py) with the two-pass/shifted arithmetic of the code related by lemmas; the tests sample lists, the proof covers every pattern of missing values.',
 'C02': 'The result is characterised by counting (`QUANTILE`): the sorted valid values are a permutation of the input, the two neighbouring order statistics bracket the level.',
 'C03': 'Windows are lists (`WIN`) cut from the clipped square; results are compared with statistics of these lists.',
 'C04': 'As C03; the fast version is specified from the share of values below each threshold.',
 'C06': 'Lookup and interpolation are specified by existence of neighbouring knots; functions the code reaches through parallel loops are proved free of races and of escaping exceptions.',
 'C08': 'The nearest point is not unique: the specification is existential (`NEARG`, `NEARP`), proved from the contract of the tree search.',
 'C11': 'The r-tree itself (boost) is axiomatised; coordinate conversion, the filtering by exact distance, the exclusion of exact matches and the conversion of results are proved on top.',
 'C12': 'Class invariants tie the arrays of a point list or grid to its tree; every constructor establishes them, every method is proved under them.',
 'C15': 'pow/exp/log are uninterpreted with algebraic laws; the inverse property is a lemma over those laws.',
 'C19': 'Each output is stated as the statistic of the values at the indices a radius search returns; the search result is a set, so order-independence of statistics is a trusted lemma.',
 'C20': 'Covered cells are stated by quantifiers over points (the last covering point wins); loops over points and cells carry the prefix invariants.',
 'C24': '',
}
CAUGHT = {
 'C01': ['C01-shift-first (failed obligation, failing input)'],
 'C02': ['C02-upper-dup (failed obligation, failing input)'],
 'C03': ['C03-missing-column (bounded: failing input)'],
 'C05': ['C05-before-edge (bounded: failing input)'],
 'C06': ['C06-tie (failed obligation, failing input)'],
 'C07': ['C07-two-points (failed obligation, failing input)'],
 'C08': ['C08-vec3-col (failed obligation, failing input)'],
 'C09': ['C09-corner-gap (bounded)'],
 'C10': ['C10-mask-geq (bounded: failing input)'],
 'C11': ['C11-closest (failed obligation, failing input)'],
 'C12': ['C12-domain-laf (failed obligation, failing input)'],
 'C15': ['C15-started-join (failed obligation, failing input)'],
 'C16': ['C16-cold-table (failed obligation, failing input)'],
 'C17': ['C17-slp-boundary (failed obligation, failing input)'],
 'C19': ['C19-distance-type (failed obligation)'],
 'C20': ['C20-second-gap (failed obligation)'],
 'C21': ['C21-first-time (bounded: failing input)'],
 'C24': ['C24-ragged (failed obligation)'],
}
