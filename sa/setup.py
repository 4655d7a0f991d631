"""Builds the facts driver and extracts the facts of the current tree once."""
from . import extract

if __name__ == "__main__":
    for profile in ("release", "dev"):
        try:
            print(extract.facts_dir(profile))
        except extract.ExtractError as x:
            # the checks report this themselves
            print(str(x)[:2000])
