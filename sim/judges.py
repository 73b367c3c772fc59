"""The judge of every property that is decided from the record of one run."""
from . import flow, oracles, requests, valid

JUDGES = {**oracles.JUDGES, "C24": requests.c24, "C25": flow.c25, "C26": requests.c26, "C27": valid.c27}
