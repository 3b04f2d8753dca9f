"""What each property is decided on: profiles of random programs (quick and
thorough counts), universes enumerated by the specification, models."""
import json, os
import pbv, gen

ASSUMPTIONS = [
    "TLC evaluates the specification as TLA+ defines it",
    "diagnostics are compared as opaque lines: their wording is not specified",
    "one process at a time: nothing else writes in the directories the programs use",
    "the build of the check (gcc, default configuration, no NLS catalogs) stands for the builds users make",
]

def place(prog):
    return prog

CHECKS = {
    "C01": dict(profiles=[("ops", 1400, 20000)]),
    "C02": dict(profiles=[("goto", 1400, 20000)]),
    "C03": dict(profiles=[("call", 1400, 20000)]),
    "C04": dict(profiles=[("el", 1400, 20000)]),
    "C05": dict(profiles=[("env", 1400, 20000)]),
    "C06": dict(profiles=[("local", 1400, 20000)]),
    "C07": dict(profiles=[("expand", 1400, 20000)]),
    "C08": dict(profiles=[("delayed", 1200, 15000)]),
    "C09": dict(profiles=[("lex", 1000, 10000)]),
    "C10": dict(profiles=[("for", 1200, 15000)]),
    "C11": dict(profiles=[("forf", 1200, 15000)]),
    "C12": dict(profiles=[("if", 1000, 10000)]),
    "C13": dict(profiles=[("redir", 1400, 20000)]),
    "C14": dict(profiles=[("pipes", 1400, 15000)]),
    "C15": dict(profiles=[("args", 1300, 15000)]),
    "C16": dict(profiles=[("child", 1300, 15000)]),
    "C17": dict(profiles=[("def", 1400, 20000)]),
    "C18": dict(profiles=[("dirs", 1400, 20000)]),
    "C19": dict(profiles=[("files", 1500, 20000)]),
    "C20": dict(profiles=[("seta", 1200, 15000)]),
    "C22": dict(profiles=[("dir", 1300, 15000)]),
    "C21": dict(profiles=[("filters", 1500, 20000)]),
    "C24": dict(profiles=[("ext", 1400, 15000)]),
    "C25": dict(profiles=[("argv", 1000, 15000)]),
}


def universe(name, thorough):
    raise pbv.Infra("no universe " + name)


def model(name, thorough):
    raise pbv.Infra("no model " + name)
