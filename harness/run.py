"""run.py <property>: decides one property (see ../check)."""
import importlib
import sys

import common

AREAS = {
    "theory_checks": ["C01", "C02"],
    "limits_checks": ["C03", "C04", "C05"],
    "cmb_checks": ["C06"],
    "grid_checks": ["C07"],
    "relic_checks": ["C14", "C15"],
    "space_checks": ["C08", "C09", "C10"],
    "instruments_checks": ["C13"],
    "pbh_checks": ["C17"],
    "spectra_checks": ["C18", "C19", "C22", "C23", "C24", "C25"],
    "constrain_checks": ["C16"],
    "agents_checks": ["C27", "C28", "C29", "C30", "C31", "C32"],
}
AREA_OF = {p: m for m, ps in AREAS.items() for p in ps}

if __name__ == "__main__":
    prop = sys.argv[1]
    common.main(prop, lambda check: importlib.import_module(AREA_OF[prop]).run(check))
