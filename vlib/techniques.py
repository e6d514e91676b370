NA = {}
TECH["C01"] = ("brute-force membership oracle over every delivered slice", "Exploration: thousands of random binnings and visit tables per run; trusts the harness's membership test.")
TECH["C02"] = ("separation and footprint oracle over every sky point's delivered visits", "Exploration: hundreds of random pointing sets x slicer settings per run; points within 1e-9 rad of an edge are not judged.")
TECH["C03"] = ("differential monitor: each bundle of a group against the bundle alone on fresh visits", "Exploration: >1000 random bundle collections per run with stackers, maps and slicers designed to collide.")
TECH["C04"] = ("round-trip monitor: every field of every written result compared after reading by each route", "Exploration: thousands of random results over all slicer types per run.")
TECH["C05"] = ("history monitor: every query compared with a model after random record/reopen/migrate histories and concurrent writers", "Exploration: hundreds of random histories on real database files per run.")
TECH["C06"] = ("history monitor: tracking database rows and gathered summaries compared with a model of what was recorded", "Exploration: hundreds of random histories and run sets per run.")
TECH["C07"] = ("reference monitor: each metric against a plain-Python definition on random visit tables, with data-untouched and declared-columns monitors", "Exploration: thousands of random tables and option sets per run.")
TECH["C08"] = ("reference monitor: every stored summary value against its definition over unmasked or filled values, result watched for change", "Exploration: thousands of random results and summary collections per run; cosmology emulators excluded.")
TECH["C09"] = ("reference and metamorphic monitor: every added value against a per-row definition, every other byte of the table watched, permutation/subset/second-run/preset invariance", "Exploration: thousands of random visit tables and option sets per run.")
TECH["C10"] = ("reference monitor: every selected row against a Python evaluation of the constraint over the stored rows, source bytes watched", "Exploration: hundreds of random tables, constraints and source kinds per run.")
TECH["C11"] = ("reference and metamorphic monitor: each timing metric against a direct evaluation of its definition; order, column and time-shift invariance", "Exploration: thousands of random visit histories per run.")
TECH["C12"] = ("reference monitor: every bin of every vector metric against a loop over the visits, with conservation, monotonicity and order-invariance monitors", "Exploration: thousands of random bin and visit sets per run.")
TECH["C13"] = ("reference monitor: each object's rows, brightness columns and metric values against a loop over its own observations, in whole bundle runs and alone", "Exploration: thousands of random populations, observation histories and discovery criteria per run.")
TECH["C14"] = ("reference and metamorphic monitor: every flux, magnitude, dust and resampling result against a direct quadrature, cached/joint/re-read forms against the plain ones", "Exploration: thousands of random spectra and bandpasses per run; tolerances cover the quadrature rule only.")
TECH["C15"] = ("reference monitor: noise, depth and error values against an electron-count model, and agreement between the spectrum, depth and magnitude routes", "Exploration: hundreds of random instruments, skies and sources per run.")
TECH["C16"] = ("reference monitor: fitted segments evaluated inside, between and at the ends of the fit nodes against the analytic paths they were fitted to, coverage and file round trips watched", "Exploration: thousands of random paths and fit settings per run; the orbit integrator is an analytic stand-in.")
TECH["C17"] = ("reference monitor: every element of every object compared with what was given, through tables, files, items and comparisons; invalid sets must raise", "Exploration: thousands of random orbit sets and file layouts per run.")
TECH["C18"] = ("reference monitor: every object-visit pair of generated pointing histories judged by independent footprint geometry, every output column against truth", "Exploration: hundreds of random flights, >50,000 pairs per run; the orbit integrator is an analytic stand-in.")
TECH["C19"] = ("reference monitor: the sky model on generated template libraries with known answers, every point and band recomputed alone, in groups, in other orders and after other states", "Exploration: hundreds of skies and parameter sets per run; the real template files are absent and replaced by synthetic ones.")
TECH["C20"] = ("conservation and round-trip monitor: generated star/visit catalogs compared pair by pair with direct geometry, solver output against the injected truth", "Exploration: random fields, offsets and solver histories; noise properties are tested at 6 sigma.")
TECH["C21"] = ("geometric oracle: every satellite propagated on its own from its element set and its track intersected with every pointing on the sphere; metamorphic grouping/order/additivity monitors", "Exploration: tens of thousands of element sets and hundreds of pointing lists per run; propagation itself is trusted to sgp4/skyfield, the Sun is a generated direction.")
TECH["C22"] = ("model-based history monitor: random operation histories (valid, invalid, conflicting, with broken connections) run on the real store and PostgreSQL next to an in-memory model; every query and the full table contents compared after each step", "Exploration: hundreds of histories of tens of operations per run; PostgreSQL is trusted, sessions run in UTC.")
TECH["C23"] = ("content monitor: after every archiving operation every registered file is read back and compared with the bytes given, tables through all conversions cell by cell, archive listings and selections against a scan of the generated archive; hashes against content changes", "Exploration: hundreds of histories, archives and tables per run on local file archives; lsst.resources and PyTables are trusted; no S3.")
TECH["C24"] = ("model-based monitor: indexes read from the database, from the written index file and through the fallback compared row by row with the recorded simulations; calendar oracle over all day forms and times around the noon boundary", "Exploration: thousands of dates and tens to hundreds of archives per run.")
TECH["C25"] = ("differential runtime monitor: every utility and sky-map call compared with an independent definition over maps the workload wrote; requests for different map files interleaved in one process expose stale caches", "Exploration: thousands of calls per run.")
TECH["C26"] = ("differential runtime monitor: each metric run compared with an independent visit-by-visit definition; and a metamorphic monitor over every registered metric (rows shuffled, other inputs run before, a fresh instance, only the declared columns and map keys, input rows compared after the run)", "Exploration: a thousand runs per quick check, ten thousand thorough.")
