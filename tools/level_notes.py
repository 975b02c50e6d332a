NOT_READY = set()
NA = {}
DEFAULT_TECH = "property-based testing: seeded structured generation of cases/histories against an explicit reference oracle, with JSON delta-debugging shrinking"
TECH = {}
DEFAULT_NOTE = "Bounded random search: holds on every generated case of the run; case counts, classes and non-triviality are in the evidence file. Trusts the oracle in checks/ and the virtual-time event loop."
NOTE = {}
