# NOTES[id] = dict(note=..., level=..., technique=...); NA[id] = reason
NOTES["C14"] = dict(level="exploration", note="Number of state names bounded to at most 3 (arrays, layouts, ranks and values are universal).")
NOTES["C20"] = dict(level="exploration", note="Number of nudged names bounded to at most 3 (arrays, layouts and values are universal).")
NOTES["C23"] = dict(level="exploration", note="Sets of files hold at most 3 variables at a time (every documented variable is covered; sizes, values, layouts, ranks and dates are universal); files, xarray and fsspec are assumed contracts.")
NOTES["C25"] = dict(level="exploration", note="At most 3 quantities per state (sizes, halos and values are universal); files, xarray and fsspec are assumed contracts.")
NOTES["C27"] = dict(level="exploration", note="At most 4 simulated ranks and 6 calls in a history, every interleaving of them; sizes and values are universal.")
