CLAIMS = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20", "C21", "C22", "C23"}
NOT_APPLICABLE = {'C18': 'fuzzing under sanitizers applies, but the tree does not hold the property for arbitrary documents and FITS files (unchecked sizes in several kinds, repairs not small), so no sound quiet check could be registered; refusals are monitored in part under C06, C07, C13, C14 and C21'}
HOOKS = dict(guard='GYOTO_VERIF', enable='lib/build.py compiles /repo with -DGYOTO_VERIF', source_commits=[])
