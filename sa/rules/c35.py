"""Literal accounting in conflict analysis, by abstract interpretation with an event automaton."""
from .common import *
from . import derive

RULE = "event groups of every abstract path of the derivation, quantified facts over clauses"
ASSUMES = ["reasons are stored clauses whose other literals were assigned earlier (C07)",
           "levels on the trail ascend (C03, C04)", "marks are unset initially (C08)"]


def run(cx):
    derive.run(Only(cx, "c35"))
